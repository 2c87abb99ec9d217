"""Every smearing transform of the real library against the published formula
evaluated in numpy, one step and several."""
import numpy as np
from common import *
import ref, rsmear
PROP = "S01"; LEVEL = "exploration"
RULE = ("every transform (APE, STOUT, LOG) x (plain spatial, plain all directions, hypercubic spatial, hypercubic fast, hypercubic "
        "recursive in all or spatial directions) x colour count/dimension/instruction set, random unequal extents, alphas and thread "
        "counts, 0 to 4 iterations; distinct by variant, transform, direction choice, projection, iterations and extents")
ASSUMPTIONS = ["logarithms are compared only on fields whose plaquette eigenphases stay below 2.8",
               "the APE projection is the compiled-in one: nearest unitary matrix with the principal N-th root of its determinant removed",
               "the weight of the staple sum is the documented alpha/((ND-1)(ND-2)) convention of the code"]
MIN_SIGS = 180
VAR = ["nc3", "nc2", "nc4", "nc5nd3", "nc3nosse", "nc2nd3", "nc3nd3", "nc3symanzik", "nc2iwasaki", "nc4dbw2", "nc5nd3symanzik"]
RECT = rsmear.RECT
BUILDS = VAR
TYPE = {"APE": 1, "STOUT": 2, "LOG": 3}

def routines(ND):
    R = [("3D", ND - 1, False), ("4D", ND, False), ("HYPND", ND, True), ("HYPND", ND - 1, True)]
    if ND == 4: R += [("HYP3D", 3, True), ("HYP4D", 4, True)]
    return R

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []
    for v in VAR:
        ND = ncnd(v)[1]
        for name, dirs, hyper in routines(ND):
            if v in RECT and hyper: continue
            for t in TYPE:
                for k in range(3 if tier == "quick" else 20):
                    out.append(dict(variant=v, label="%s/%s/%d" % (name, t, dirs), name=name, dirs=dirs, hyper=hyper, type=t,
                                    dims=dims_of(r, ND, 2, 4, 96), kind=["warm", "hot", "smooth"][int(r.integers(3))],
                                    alphas=[float(x) for x in r.uniform(0.2, 0.75, ND - 1)],
                                    iters=int(r.integers(1, 5)), seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 9))))
    # lattices beyond sixteen bits
    for v in ("nc2", "nc3"):
        for name, dirs, hyper, t, V in (("4D", 4, False, "STOUT", 66000), ("3D", 3, False, "STOUT", 9000), ("4D", 4, False, "APE", 9000), ("HYP4D", 4, True, "STOUT", 3000), ("HYPND", 4, True, "APE", 1500), ("HYP3D", 3, True, "STOUT", 9000)):
            V = V if v == "nc2" else min(V, 20000)
            out.append(dict(variant=v, label="%s/%s/%d" % (name, t, dirs), name=name, dirs=dirs, hyper=hyper, type=t, dims=big_dims(r, 4, V, int(1.3 * V)), kind="warm",
                            alphas=[float(x) for x in r.uniform(0.2, 0.6, 3)], iters=1, seed=int(r.integers(1 << 31)), threads=int(r.integers(2, 9)), cost=4))
    return out

def run(c, g):
    R = Report(); dims = c["dims"]; N, ND = g.NC, g.ND; r = rng_of(c["seed"])
    g.setup(dims, c["threads"]); S = g.shim("smear"); g.smalpha(c["alphas"])
    import ctypes
    S.z_smear.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_size_t]
    lat = ref.Lattice(dims); kind = c["kind"]; typ = c["type"]; al = c["alphas"]
    if typ == "LOG":
        U = ref.near_unit(r, g.V * ND, N, 0.12).reshape(g.V, ND, N, N)
    else: U = ref.field(r, dims, N, kind)
    if typ != "APE" and kind == "hot": al = [x * 0.6 for x in al]; g.smalpha(al)
    ctx = "%s %s dims %s %s alphas %s" % (g.variant, c["label"], dims, kind, np.round(al, 3))
    p = g.lat(U)
    def do(n):
        st = S.z_smear(p, c["name"].encode(), n, TYPE[typ], c["dirs"])
        if st != 0: R.bad("status/" + c["label"], "%s: returned %d" % (ctx, st))
        return g.get(p)
    if np.any(do(0) != U): R.bad("none/" + c["label"], ctx + ": zero iterations changed the field")
    W, phase = rsmear.step(lat, U, typ, al, c["dirs"], c["hyper"], ref.project_su, RECT.get(g.variant))
    one = do(1)
    if typ == "LOG" and phase > 2.8: return R.out()
    tol = 1e-9
    R.near("step/%s/%s/%s" % (c["name"], typ, c["dirs"]), one, W, tol, ctx)
    # several iterations are the map applied again and again
    for _ in range(c["iters"] - 1): do(1)
    rep = g.get(p)
    g.set(p, U); many = do(c["iters"])
    R.near("compose/%s/%s" % (c["name"], typ), many, rep, 1e-11, ctx)
    # alternatives of one transform
    alts = []
    if c["name"] == "HYP4D": alts = [("HYPND", 4)]
    if c["name"] == "HYP3D": alts = [("HYPND", 3)]
    for a, d in alts:
        g.set(p, U); S.z_smear(p, a.encode(), c["iters"], TYPE[typ], d)
        R.near("alternative/%s/%s" % (c["name"], typ), g.get(p), many, 1e-10, ctx)
    g.free(p)
    R.ok("%s %s %s %s %d" % (g.variant, c["label"], dims, kind, c["iters"]))
    return R.out()

