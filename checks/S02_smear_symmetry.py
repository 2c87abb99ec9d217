"""Smearing and flow on the real library: group, gauge covariance,
translations, fixed points, untouched links, growth of the plaquette."""
import ctypes
import numpy as np
from common import *
import ref, rsmear
from glu import Capture
PROP = "S02"; LEVEL = "exploration"
RULE = ("every smearing entry point (routines and the wrapper with all ten documented types and both direction settings) and both flows x colour "
        "count, dimension, instruction set; hot, warm, smooth, pure-gauge and abelian fields on random unequal lattices with random gauge "
        "transformations and translations; distinct by variant, routine, transform, field kind and extents")
ASSUMPTIONS = ["logarithmic transforms are run on fields whose plaquette phases stay clear of the branch cut, where the logarithm is defined",
               "growth of the plaquette is required only for smooth fields and small coefficients"]
MIN_SIGS = 200
VAR = ["nc3", "nc2", "nc4", "nc5nd3", "nc3nosse", "nc2nd3", "nc3nd3", "nc4gsl", "nc3symanzik", "nc2iwasaki", "nc4dbw2", "nc5nd3symanzik"]
BUILDS = VAR
TYPES = {"APE": 1, "STOUT": 2, "LOG": 3, "HYP": 4, "HEX": 5, "HYL": 6, "WFLOW_STOUT": 7, "WFLOW_LOG": 8, "ADAPT_STOUT": 9, "ADAPT_LOG": 10}
LOGS = ("LOG", "HYL", "WFLOW_LOG", "ADAPT_LOG")

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; rep = 1 if tier == "quick" else 6
    for v in VAR:
        ND = ncnd(v)[1]; jobs = []
        rt = [("3D", ND - 1), ("4D", ND)]
        if v not in rsmear.RECT:
            rt += [("HYPND", ND), ("HYPND", ND - 1)] + ([("HYP3D", 3), ("HYP4D", 4)] if ND == 4 else [])
        jobs = [(n, t, d) for n, d in rt for t in ("APE", "STOUT", "LOG")]
        for t in TYPES:
            if v in rsmear.RECT and t in ("HYP", "HEX", "HYL"): continue
            for d in (ND - 1, ND): jobs.append(("wrap", t, d))
        jobs += [("flow0", t, ND) for t in ("STOUT", "LOG")] + [("flow1", t, ND) for t in ("STOUT", "LOG")]
        for n, t, d in jobs:
            for k in range(rep):
                kind = ["warm", "hot", "gaugeunit", "smooth", "diag"][int(r.integers(5))] if t not in LOGS else ["near", "gaugeunit", "smooth"][int(r.integers(3))]
                dims = dims_of(r, ND, 2, 5, 120)
                if v in rsmear.RECT: dims[-1] = max(3, dims[-1])
                out.append(dict(variant=v, label="%s/%s/%d" % (n, t, d), name=n, type=t, dirs=d, kind=kind, dims=dims, iters=int(r.integers(1, 4)),
                                seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 9))))
    return out

def run(c, g):
    R = Report(); dims = c["dims"]; N, ND = g.NC, g.ND; r = rng_of(c["seed"]); typ = c["type"]; kind = c["kind"]
    g.setup(dims, c["threads"]); S = g.shim("smear"); lat = ref.Lattice(dims)
    S.z_smear.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_size_t]
    S.z_flow.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    S.z_wrap.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_size_t, ctypes.c_int]
    flow = "flow" in c["name"] or TYPES[typ] >= 7
    small = kind in ("smooth", "gaugeunit", "near")
    if flow: al = [0.02 if g.variant != "nc4dbw2" else 0.002] * (ND - 1)
    elif small: al = [float(x) for x in r.uniform(0.1, 0.4, ND - 1)]
    else: al = [float(x) for x in r.uniform(0.2, 0.7, ND - 1)]
    g.smalpha(al)
    if kind == "near": U = ref.near_unit(r, g.V * ND, N, 0.12).reshape(g.V, ND, N, N)
    else: U = ref.field(r, dims, N, kind)
    K = c["label"]; ctx = "%s %s dims %s %s alphas %s iters %d" % (g.variant, K, dims, kind, np.round(al, 3), c["iters"])
    p = g.lat(U)
    def apply(W):
        g.set(p, W)
        with Capture(g.B):
            if c["name"] == "wrap": st = S.z_wrap(p, c["dirs"], c["iters"], TYPES[typ])
            elif c["name"].startswith("flow"): st = S.z_flow(p, c["iters"], 1, TYPES[typ], int(c["name"][4]))
            else: st = S.z_smear(p, c["name"].encode(), c["iters"], TYPES[typ], c["dirs"])
        if st != 0: R.bad("status/" + K, "%s: returned %d" % (ctx, st))
        return g.get(p)
    A = apply(U)
    a, b = ref.su_defect(A); R.ok()
    R.obs["max_group_defect"] = max(a, b) if max(a, b) < 1e-9 else 0.0
    if not max(a, b) <= 1e-10: R.bad("group/" + K, "%s: links off the group by %g (unitarity) %g (determinant)" % (ctx, a, b))
    spatial = c["dirs"] == ND - 1 and not flow
    if spatial and np.any(A[:, ND - 1] != U[:, ND - 1]): R.bad("untouched/" + K, "%s: temporal links changed by %g" % (ctx, abs(A[:, -1] - U[:, -1]).max()))
    moved = abs(A[:, :ND - 1 if spatial else ND] - U[:, :ND - 1 if spatial else ND]).max((0, 2, 3)) 
    if kind == "gaugeunit":
        R.near("fixed/" + K, A, U, 1e-10, ctx + " (pure gauge must stay)")
    elif moved.min() < 1e-9: R.bad("moved/" + K, "%s: links of one direction did not change: %s" % (ctx, moved))
    # gauge covariance, with a strong transformation unless the logarithm's cut matters (it does not: loops only rotate)
    h = ref.haar(r, g.V, N)
    B = apply(ref.transform(lat, U, h))
    tol = 1e-9 if "ADAPT" not in typ else 1e-7
    R.near("covariant/" + K, B, ref.transform(lat, A, h), tol, ctx)
    # translation
    sh = [int(r.integers(0, L)) for L in dims]; idx = lat.index(lat.x + np.array(sh)[:, None])
    R.near("translate/" + K, apply(U[idx]), A[idx], tol, ctx + " shift %s" % sh)
    if small and kind != "gaugeunit" and min(dims) > 2:
        q0, q1 = ref.plaquettes(lat, U), ref.plaquettes(lat, A)
        j = 1 if spatial else 0
        R.ok(); R.obs["min_plaquette_gain"] = q1[j] - q0[j]
        if not q1[j] > q0[j]: R.bad("smoother/" + K, "%s: plaquette fell from %.12g to %.12g" % (ctx, q0[j], q1[j]))
    g.free(p)
    R.ok("%s %s %s %s" % (g.variant, K, dims, kind))
    return R.out()
