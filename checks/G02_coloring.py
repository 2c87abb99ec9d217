"""Parallel-update colouring: reads the colour classes GLU builds and checks
that they partition the sites and contain no pair of nearest neighbours."""
import numpy as np
from common import *
import ref
from ctypes import c_long
from glu import P, c_int, c_void_p, Capture
PROP = "G02"; LEVEL = "exploration"
RULE = ("lattice extents 2..14 in 3 and 4 dimensions, all residues of odd extents modulo 3 included, full lattice and "
        "spatial slice; sixteen-colour pattern of the improved action on multiples of four (and refusal elsewhere); distinct by extents and slice flag; all sites and directions checked")
ASSUMPTIONS = ["extents of at least 2"]
MIN_SIGS = 40

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []
    for v in ("nc3", "nc5nd3"):
        ND = ncnd(v)[1]
        ds = [[4] * ND, [L for L in (7, 13, 4, 2)][:ND], [13, 7, 5, 3][:ND], [3] * ND, [2] * ND, [5, 2, 2, 2][:ND],
              [2, 2, 2, 7][-ND:], [9, 11, 2, 4][:ND], [3, 3, 3, 7][-ND:]]
        for _ in range(40 if tier == "quick" else 300): ds.append(dims_of(r, ND, 2, 14, 3000))
        ds += [big_dims(r, ND), [2] * (ND - 1) + [int(r.integers(260, 400))]]
        for d in ds: out.append(dict(variant=v, label="dims", dims=d))
    for d in [[4] * 4, [8, 4, 4, 4], [4, 8, 4, 4], [4, 4, 8, 4], [4, 4, 4, 8], [8, 8, 4, 4], [4, 4, 8, 8], [12, 4, 4, 8], [4, 12, 8, 4]] + \
             [[int(x) for x in r.choice([4, 4, 8], 4)] for _ in range(4)] + [[6, 4, 4, 4], [4, 4, 4, 5], [2, 4, 4, 4]]:
        out.append(dict(variant="nc3symanzik", label="improved", dims=d))
    return out

def improved(R, g, S, dims):
    """the classes of one direction: no two of their links in a common plaquette or rectangle"""
    lat = ref.Lattice(dims); ND = g.ND
    col = -np.ones((lat.V, ND), np.int32); cnt = np.zeros((lat.V, ND), np.int32)
    with Capture(g.B): n = S.s_icb(P(col), P(cnt))
    if n == -1:
        if all(d % 4 == 0 for d in dims): R.bad("improved/refused", "dims %s: refused" % dims)
        R.ok("refused %s" % dims); return
    if n < 1: R.bad("improved/construction", "dims %s: site out of range" % dims); return
    if (cnt != 1).any():
        i = np.argwhere(cnt != 1)[0]; R.bad("improved/partition", "dims %s: site %d direction %d listed %d times" % (dims, i[0], i[1], cnt[tuple(i)]))
    for mu in range(ND):
        for nu in range(ND):
            if nu == mu: continue
            fn = lat.fw[nu]; fm = lat.fw[mu]
            for name, nb in (("+nu", fn), ("+2nu", fn[fn]), ("+mu", fm), ("+mu+nu", fm[fn]), ("+mu-nu", fm[lat.bw[nu]])):
                bad = (col[:, mu] == col[nb, mu]) & (nb != np.arange(lat.V))
                if bad.any():
                    R.bad("improved/neighbours", "dims %s direction %d: the links at site %d and %s (nu=%d) share a loop and a colour" % (dims, mu, int(np.argmax(bad)), name, nu)); return
    R.ok("improved %s" % dims, lat.V * ND * (ND - 1) * 5)

def run(c, g):
    R = Report(); dims = c["dims"]; ND = g.ND
    g.setup(dims, 2)
    S = g.shim("cb")
    if c["label"] == "improved": improved(R, g, S, dims); return R.out()
    S.s_cb.argtypes = [c_long, c_long, c_void_p, c_void_p]
    for sl in (False, True):
        dd = dims[:-1] if sl else dims
        lat = ref.Lattice(dd)
        col = np.zeros(lat.V, np.int64); cnt = np.zeros(lat.V, np.int64)
        n = S.s_cb(lat.V, ND - 1 if sl else ND, P(col), P(cnt))
        if n < 1:
            R.bad("construction", "dims %s slice %s: colouring failed (%d)" % (dims, sl, n)); continue
        if (cnt != 1).any():
            R.bad("partition", "dims %s slice %s: site %d listed %d times" % (dims, sl, int(np.argmax(cnt != 1)), cnt[np.argmax(cnt != 1)]))
        for mu in range(lat.ND):
            same = (col == col[lat.fw[mu]])
            if same.any():
                i = int(np.argmax(same))
                R.bad("neighbours", "dims %s slice %s: site %d and its neighbour %d in direction %d are both colour %d"
                      % (dims, sl, i, lat.fw[mu][i], mu, col[i]))
        R.ok("%s slice=%s colours=%d" % (dims, sl, n), lat.V * lat.ND)
        R.obs["colours_%d" % n] = 1
    return R.out()
