"""Geometry: reads GLU's own index maps and neighbour tables back for many
lattices and compares each entry with coordinates computed independently."""
import ctypes, numpy as np
from common import *
import ref
from glu import P, c_int, c_size_t, c_double, c_void_p
PROP = "G01"; LEVEL = "exploration"
RULE = ("random and structured lattice extents (2..9, unequal, odd, thin) per compiled dimension; every site and "
        "direction is checked; a case is distinct by its extents and compiled dimension and counts when volume > 1")
ASSUMPTIONS = ["extents of at least 2 in every direction for neighbour distinctness, extent 1 included for the maps"]
MIN_SIGS = 20

def cases(tier, seed):
    r = rng_of(PROP, seed)
    out = []
    n = 25 if tier == "quick" else 150
    for v in ("nc3", "nc5nd3"):
        ND = ncnd(v)[1]
        ds = [[4] * ND, list(range(2, 2 + ND)), list(range(5, 5 - ND, -1)) if ND == 4 else [5, 4, 3],
              [3] * ND, [7] + [2] * (ND - 1), [2] * (ND - 1) + [9], [1] * (ND - 1) + [4], [2, 1, 3, 1][:ND]]
        for _ in range(n): ds.append(dims_of(r, ND, 1, 9, 2500))
        ds += [big_dims(r, ND), [2] * (ND - 1) + [int(r.integers(260, 400))], [int(r.integers(260, 400))] + [2] * (ND - 1), [3, int(r.integers(260, 400)), 2, 1][:ND]]
        for d in ds: out.append(dict(variant=v, label="dims", dims=d, seed=int(r.integers(1 << 31)),
                                     threads=int(r.integers(1, 9))))
    return out

def run(c, g):
    R = Report(); L = g.L; dims = c["dims"]; ND = g.ND; r = rng_of(c["seed"])
    g.setup(dims, c["threads"])
    lat = ref.Lattice(dims); V = g.V
    p = g.lat()
    nb = np.zeros((V, ND), np.int64); bk = np.zeros((V, ND), np.int64)
    g.B.v_nav(p, P(nb), P(bk))
    for mu in range(ND):
        R.near("neighbour/forward", nb[:, mu], lat.fw[mu], 0, "dims %s dir %d" % (dims, mu))
        R.near("neighbour/backward", bk[:, mu], lat.bw[mu], 0, "dims %s dir %d" % (dims, mu))
    IA = c_int * ND
    L.gen_site.restype = c_size_t
    L.gen_shift.restype = c_size_t; L.gen_shift.argtypes = [c_size_t, c_int]
    L.get_mom_2piBZ.argtypes = [c_void_p, c_size_t, c_size_t]
    L.get_mom_pipi.argtypes = [c_void_p, c_size_t, c_size_t]
    L.TwoPI_mpipi_momconv.argtypes = [c_void_p, c_size_t, c_size_t]
    L.get_vec_from_origin.argtypes = [c_void_p, c_size_t, c_size_t]
    L.compute_rsq.restype = c_size_t; L.compute_rsq.argtypes = [c_size_t, c_size_t]
    L.compute_spacing.restype = c_size_t; L.compute_spacing.argtypes = [c_void_p, c_size_t, c_size_t]
    L.gen_p_sq.restype = c_double; L.gen_p_sq.argtypes = [c_size_t, c_size_t]
    L.gen_p_sq_feyn.restype = c_double; L.gen_p_sq_feyn.argtypes = [c_size_t, c_void_p]
    L.gen_get_p.argtypes = [c_void_p, c_size_t, c_size_t]
    L.get_site_pipiBZ.restype = c_size_t; L.get_site_pipiBZ.argtypes = [c_void_p, c_size_t]
    L.compute_p.argtypes = [c_void_p, c_void_p, c_size_t]
    L.get_mom_2piBZ_hirep2.argtypes = [c_void_p, c_size_t]
    D = np.array(dims)
    sites = range(V) if V <= 300 else sorted(set(int(x) for x in r.integers(0, V, 300)) | {0, V - 1})
    half = D // 2
    for i in sites:
        x = lat.x[:, i]
        b = IA(); s = L.get_mom_2piBZ(b, i, ND)
        if list(b) != list(x) or s != int(x.sum()):
            R.bad("coordinates", "dims %s site %d: got %s sum %d, expected %s" % (dims, i, list(b), s, list(x)))
        if L.gen_site(IA(*[int(a) for a in x])) != i:
            R.bad("index", "dims %s coordinates %s give another index than %d" % (dims, list(x), i))
        for mu in range(ND):
            if L.gen_shift(i, mu) != lat.fw[mu][i] or L.gen_shift(i, -mu - 1) != lat.bw[mu][i]:
                R.bad("shift", "dims %s site %d dir %d" % (dims, i, mu))
        # distance from the origin by the shorter way round
        m = np.minimum(x, D - x)
        if L.compute_rsq(i, ND) != int((m * m).sum()):
            R.bad("distance", "dims %s site %d: r^2 = %d, expected %d" % (dims, i, L.compute_rsq(i, ND), (m * m).sum()))
        L.get_vec_from_origin(b, i, ND)
        v = np.array(list(b))
        if ((v - x) % D).any() or (abs(v) != m).any():
            R.bad("origin-vector", "dims %s site %d: %s" % (dims, i, list(v)))
        # shift by a vector within one period
        sep = np.array([int(r.integers(-int(l) + 1, int(l) + 1)) for l in D])
        k = L.compute_spacing(IA(*[int(a) for a in sep]), i, ND)
        want = int(lat.index(x + sep))
        if k != want: R.bad("spacing", "dims %s site %d separation %s gives %d, expected %d" % (dims, i, list(sep), k, want))
        # momenta: -pi..pi labels
        L.get_mom_pipi(b, i, ND)
        if list(b) != list(x - half): R.bad("momentum-label", "dims %s site %d: %s" % (dims, i, list(b)))
        n = np.array(list(b))
        k = L.get_site_pipiBZ(IA(*[int(a) for a in n]), ND)
        if k != int(lat.index(n)): R.bad("momentum-site", "dims %s momentum %s" % (dims, list(n)))
        L.TwoPI_mpipi_momconv(b, i, ND)
        n2 = np.array(list(b))
        if ((n2 - x) % D).any() or (2 * n2 < -D).any() or (2 * n2 > D).any():
            R.bad("momentum-zone", "dims %s site %d (mode %s) becomes %s" % (dims, i, list(x), list(n2)))
        psq = float(2 * (ND - np.cos(2 * np.pi * x / D).sum()))
        got = L.gen_p_sq(i, ND)
        want = 1.0 if not x.any() else psq
        if abs(got - want) > 1e-11: R.bad("psq", "dims %s site %d: %g expected %g" % (dims, i, got, want))
        fl = c_int(7); got = L.gen_p_sq_feyn(i, ctypes.byref(fl))
        if abs(got - want) > 1e-11 or bool(fl.value) != (not x[:-1].any()):
            R.bad("psq-feynman", "dims %s site %d: %g flag %d" % (dims, i, got, fl.value))
        pb = (c_double * ND)(); L.gen_get_p(pb, i, ND)
        pw = 2 * np.sin(np.pi * (x - half) / D)
        if abs(np.array(list(pb)) - pw).max() > 1e-12: R.bad("momentum", "dims %s site %d" % (dims, i))
        L.compute_p(pb, IA(*[int(a) for a in (x - half)]), ND)
        if abs(np.array(list(pb)) - pw).max() > 1e-12: R.bad("momentum-of-modes", "dims %s site %d" % (dims, i))
        # time-slice version: the last coordinate is dropped
        b = IA(); L.get_mom_2piBZ(b, i % (V // dims[-1]), ND - 1)
        if list(b) != list(x[:-1]) + [0]: R.bad("slice-coordinates", "dims %s site %d" % (dims, i))
        # HiRep geometry: slowest t, then x,y,z with z fastest
        L.get_mom_2piBZ_hirep2(b, i); bb = list(b); j = i; w = [0] * ND
        for mu in list(range(ND - 2, -1, -1)) + [ND - 1]: w[mu] = j % dims[mu]; j //= dims[mu]
        if bb != w: R.bad("hirep-coordinates", "dims %s site %d: %s expected %s" % (dims, i, bb, w))
        R.evals += 12
    g.free(p)
    R.ok("%s %s" % (ND, dims) if V > 1 else None)
    R.obs["sites"] = V
    return R.out()
