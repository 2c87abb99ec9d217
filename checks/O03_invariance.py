"""Gauge transformations, translations and axis permutations of the real
library's physical observables."""
import re, ctypes
import numpy as np
from ctypes import c_void_p
from itertools import permutations
from common import *
import ref, rcuts
from glu import P, Capture
PROP = "O03"; LEVEL = "exploration"
RULE = ("hot, warm and smooth fields on random unequal extents 2..6 in every colour and dimension variant; every gauge-transformation routine of the library, random translations, "
        "all axis permutations (sampled), applied before each observable: plaquettes, Polyakov loops, action and charge density, static potential and topological correlator files, flow histories; "
        "distinct by variant, observable, operation, extents")
ASSUMPTIONS = ["1e-9 relative agreement (reordered sums); flow rows to the six digits they are printed with"]
MIN_SIGS = 100
VAR = ["nc3", "nc2", "nc4gsl", "nc5nd3", "nc3nd3", "nc3nosse", "nc3nofft", "nc3clover"]
BUILDS = VAR
ROW = re.compile(r"\[WFLOW(?:-TSTOP)?\] \{err\} (\S+) \{t\} (\S+) \{dt\} (\S+) \{p\} (\S+) \{q\} (\S+) \{Gt\} (\S+) \{GtP\} (\S+)")

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []
    for v in VAR:
        N, ND = ncnd(v)
        for what, n in (("loops", 12), ("static", 3), ("flow", 3), ("qcorr", 2), ("adaptive", 1)):
            if what == "qcorr" and ND != 4: continue
            if v == "nc3clover" and what in ("loops", "static"): continue
            for k in range(n if tier == "quick" else 6 * n):
                out.append(dict(variant=v, label=what, what=what, dims=dims_of(r, ND, 2, 6, 500 if what == "loops" else 150),
                    kind=["hot", "warm", "smooth"][int(r.integers(3))] if "nofft" not in v or what != "adaptive" else "smooth",
                    seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 8)), op=["gauge", "translate", "permute"][k % 3]))
    return out

def permute(lat, U, pm):
    """axes renamed: new direction k is old direction pm[k]"""
    nd = [lat.dims[a] for a in pm]; L2 = ref.Lattice(nd)
    x = np.zeros_like(L2.x)
    for k, a in enumerate(pm): x[a] = L2.x[k]
    return nd, L2, np.ascontiguousarray(U[lat.index(x)][:, list(pm)]), lat.index(x)

def run(c, g):
    R = Report(); dims = c["dims"]; N, ND = g.NC, g.ND; r = rng_of(c["seed"]); op = c["op"]; what = c["what"]
    g.setup(dims, c["threads"]); lat = ref.Lattice(dims); U = ref.field(r, dims, N, c["kind"])
    O = g.shim("obs"); Y = g.shim("sym"); S = g.shim("smear")
    for f in ("z_plaqs", "z_links", "z_poly", "z_gmunu", "z_qtop"): getattr(O, f).argtypes = [c_void_p, c_void_p]
    Y.z_gauge_transform.argtypes = [c_void_p, c_void_p, ctypes.c_int]; Y.z_random.argtypes = [c_void_p, c_void_p]
    S.z_flow.argtypes = [c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    S.z_adaptive.argtypes = [c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int]
    ctx = "%s %s %s dims %s %s" % (g.variant, what, op, dims, c["kind"])
    # the image of the field; site: which old site each new one is; pm: which old direction each new one is
    pm = list(range(ND)); site = np.arange(lat.V); nd = dims
    if op == "gauge":
        h = ref.haar(r, lat.V, N); W = ref.transform(lat, U, h); p = g.lat(); gf = g.gfield(h)
        for which in range(4):            # the library's own transformations are this one
            g.set(p, U); Y.z_gauge_transform(p, gf, which)
            R.near("transform/%s" % ["whole", "parallel", "slices", "slices parallel"][which], g.get(p), W, 1e-11, ctx)
        g.B.v_gfree(gf)
        if what == "loops":
            gf = g.gfield(); g.set(p, U)
            with Capture(g.B): Y.z_random(p, gf)
            hh = g.gget(gf); a, b = ref.su_defect(hh); R.ok()
            if not max(a, b) < 1e-11: R.bad("transform/random group", "%s: random transformation off the group by %g" % (ctx, max(a, b)))
            R.near("transform/random", g.get(p), ref.transform(lat, U, hh), 1e-11, ctx)
            if abs(hh - hh[0]).max() < 1e-3: R.bad("transform/constant", ctx)
            g.B.v_gfree(gf); g.set(p, U)
            with Capture(g.B): Y.z_random(p, None)
            W2 = g.get(p)
            a, b = ref.su_defect(W2); R.ok()
            if not max(a, b) < 1e-11 or abs(W2 - U).max() < 1e-3: R.bad("transform/random_gtrans", "%s: group defect %g, change %g" % (ctx, max(a, b), abs(W2 - U).max()))
            R.near("transform/random_gtrans plaquettes", ref.plaq_traces(lat, W2), ref.plaq_traces(lat, U), 1e-10, ctx)
            W = W2 if r.integers(2) else W
        g.free(p)
    elif op == "translate":
        sh = [int(r.integers(0, L)) for L in dims]
        if not any(sh): sh[0] = 1
        site = lat.index(lat.x + np.array(sh)[:, None]); W = U[site]
    else:
        pms = [q for q in permutations(range(ND)) if list(q) != sorted(q)]
        if what in ("static",): pms = [q for q in pms if q[-1] == ND - 1]
        if what in ("qcorr",) and False: pass
        pm = list(pms[int(r.integers(len(pms)))]); nd, _, W, site = permute(lat, U, pm)
    sgn = np.linalg.det(np.eye(ND)[pm])
    def at(V_, dd):
        g.setup(dd, c["threads"]); return g.lat(V_)
    if what == "loops":
        def obs(V_, dd):
            p = at(V_, dd); o = np.zeros(16); O.z_plaqs(p, P(o)); pl = o[:6].copy()
            o = np.zeros(2 * ND); O.z_poly(p, P(o)); po = np.hypot(o[::2], o[1::2])
            o = np.zeros(2 * lat.V); gm = np.zeros(2)
            if ND == 4: O.z_qtop(p, P(o)); O.z_gmunu(p, P(gm))
            g.free(p); return pl, po, o[::2].copy(), gm
        a, b = obs(U, dims), obs(W, nd)
        R.near("plaquette", b[0][[0, 3]], a[0][[0, 3]], 1e-10, ctx)
        if pm[-1] == ND - 1: R.near("plaquette split", b[0], a[0], 1e-10, ctx)
        sc = max(a[1].max(), 1e-6)
        R.near("polyakov modulus", b[1], a[1][pm], 1e-9, ctx, scale=sc)
        if ND == 4:
            R.near("charge density", b[2], sgn * a[2][site], 1e-10, ctx, scale=abs(a[2]).max())
            R.near("action", b[3][0], a[3][0], 1e-10, ctx)
            R.near("charge", b[3][1], sgn * a[3][1], 1e-9, ctx, scale=abs(a[2]).sum() if abs(a[2]).sum() else 1)
    elif what == "static":
        mt = int(r.integers(2, 5)) if op != "gauge" else dims[-1] + 1; kw = dict(cut="PSQ_CUT", max_mom=10000, max_t=mt, definition="LINEAR_DEF")
        def obs(V_, dd):
            g.setup(dd, c["threads"]); g.B.v_flow(7)
            f, _, _ = rcuts.run_mode(g, V_, "STATIC_POTENTIAL", **kw)
            n = [k for k in f if k.startswith("STATPOT")]
            if len(n) != 1: return None
            D = rcuts.Decoder(f[n[0]]); m = D.mom(ND - 1); T = D.u32(); res = []
            for t in range(T): D.count(len(m)); a = D.cplx(len(m)); D.count(len(m)); res.append((a, D.cplx(len(m))))
            return {tuple(int(y) % L for y, L in zip(x, dd)): k for k, x in enumerate(m)}, res
        a, b = obs(U, dims), obs(W, nd)
        if a is None or b is None or len(a[0]) != np.prod(dims[:-1]): R.bad("static/file", "%s: no complete list of separations" % ctx); return R.out()
        keys = list(b[0])
        ia = []
        for k in keys:
            o = [0] * (ND - 1)
            for j in range(ND - 1): o[pm[j]] = k[j]
            ia.append(a[0].get(tuple(o), -1))
        ib = [b[0][k] for k in keys]
        if min(ia) < 0: R.bad("static/list", "%s: separations differ under a permutation of the axes" % ctx); return R.out()
        for t in range(mt - 1):
            for j, nm in enumerate(("traced", "trtr")):
                x, y = a[1][t][j][ia], b[1][t][j][ib]
                if op == "gauge" and nm == "trtr" and t + 1 < dims[-1]: continue   # open lines; only the closed loop is invariant
                if op == "gauge" and nm == "traced":                    # only the coincident point is gauge invariant
                    z = [i for i, k in enumerate(keys) if not any(k)]; x, y = x[z], y[z]
                R.near("static/" + nm, y, x, 1e-9, ctx + " t=%d" % (t + 1), scale=max(abs(a[1][t][j]).max(), 1e-9))
    elif what == "qcorr":
        def obs(V_, dd):
            g.setup(dd, c["threads"]); g.B.v_flow(7)
            f, tx, _ = rcuts.run_mode(g, V_, "TOPOLOGICAL_CORRELATOR", cut="PSQ_CUT", max_mom=10000, max_t=2)
            n = [k for k in f if k.endswith("m1")]
            D = rcuts.Decoder(f[n[0]]); m = D.mom(ND); D.count(len(m)); v = D.dbl(len(m))
            return {tuple(int(y) % L for y, L in zip(x, dd)): k for k, x in enumerate(m)}, v
        a, b = obs(U, dims), obs(W, nd)
        x, y = [], []
        for k, i in b[0].items():
            o = [0] * ND
            for j in range(ND): o[pm[j]] = k[j]
            if tuple(o) not in a[0]: R.bad("qcorr/list", "%s: separations differ" % ctx); return R.out()
            x.append(a[1][a[0][tuple(o)]]); y.append(b[1][i])
        R.near("qcorr", y, x, 1e-9, ctx, scale=abs(a[1]).max())
    else:
        g.smalpha([0.02] * (ND - 1)); n = int(r.integers(2, 6))
        def obs(V_, dd):
            p = at(V_, dd); g.smalpha([0.02] * (ND - 1))
            with Capture(g.B) as cap: st = S.z_flow(p, n, 1, 2, 0) if what == "flow" else S.z_adaptive(p, n, 1, 2)
            F = g.get(p); g.free(p)
            return st, np.array([[float(x) for x in m] for m in ROW.findall(cap.text)]), F
        a, b = obs(U, dims), obs(W, nd)
        if a[0] != b[0] or a[1].shape != b[1].shape or a[1].size == 0:
            R.bad("flow/rows", "%s: %s rows against %s, status %d %d" % (ctx, a[1].shape, b[1].shape, a[0], b[0])); return R.out()
        A, B = a[1].copy(), b[1].copy()
        A[:, 4] *= sgn
        cols = [1, 2, 3, 4, 5, 6] if ND == 4 else [1, 2, 3, 6]
        for k in cols: R.near(what + "/column%d" % k, B[:, k], A[:, k], 2e-5, ctx, scale=max(abs(A[:, k]).max(), 1e-4))
        if op == "gauge": R.near(what + "/field", b[2], ref.transform(lat, a[2], h), 1e-7, ctx)
        elif op == "translate": R.near(what + "/field", b[2], a[2][site], 1e-7, ctx)
        else: R.near(what + "/field", b[2], a[2][site][:, pm], 1e-7, ctx)
    R.ok("%s/%s/%s/%s" % (g.variant, what, op, dims))
    return R.out()
