"""Update sweeps on the real library: group, every link moves, action conserved
by over-relaxation, subgroup rotations confined to their subgroup."""
import ctypes
import numpy as np
from common import *
import ref
from glu import P, Capture
PROP = "U01"; LEVEL = "exploration"
RULE = ("single-subgroup routines for every subgroup index of SU(2..6), with and without SSE, on random, structured and nearly degenerate "
        "staples; heat-bath and over-relaxation sweeps on random unequal lattices (odd and even extents), couplings from 1e-3 to 1e10, "
        "hot/warm/unit/centre fields, 1-8 threads, sequences of sweeps, Wilson and Symanzik actions; distinct by variant, kind, coupling "
        "decade, sweep pattern, field and extents")
ASSUMPTIONS = ["extents of at least two (a link is not its own neighbour)",
               "improved-action sweeps run on extents that are multiples of four, which the sixteen-colour pattern needs"]
MIN_SIGS = 200
ALG = ["nc3", "nc2", "nc4", "nc5nd3", "nc3nosse", "nc2nosse", "nc4nosse", "nc6"]
SWP = ["nc3", "nc2", "nc4", "nc5nd3", "nc3nosse", "nc2nd3", "nc3nd3", "nc4gsl"]
BUILDS = sorted(set(ALG + SWP + ["nc3symanzik"]))

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; rep = 1 if tier == "quick" else 8
    for v in ALG:
        for k in range(rep):
            out.append(dict(variant=v, label="subgroup", seed=int(r.integers(1 << 31)), n=60))
    for v in SWP:
        ND = ncnd(v)[1]
        for k in range(14 * rep):
            dims = dims_of(r, ND, 2, 6, 500 if k % 3 else 1200)
            kind = ["hot", "warm", "hot", "smooth", "unit", "center"][k % 6]
            what = ["or", "hb", "mix"][k % 3]
            out.append(dict(variant=v, label=what, dims=dims, kind=kind, seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 9)),
                            beta=float(10 ** r.uniform(-3, 10)) if k % 2 else float(r.uniform(0.5, 12)), n=int(r.integers(1, 5)) if what != "or" else int(r.integers(1, 21))))
    for v, V in (("nc2", 66000), ("nc3", 66000), ("nc4", 5000)):
        for what in ("or", "hb"):
            out.append(dict(variant=v, label=what, dims=big_dims(r, 4, V, int(1.3 * V)), kind="hot", seed=int(r.integers(1 << 31)), threads=int(r.integers(2, 9)), beta=float(r.uniform(0.5, 12)), n=1))
    for k in range(6 * rep):
        dims = [4, 4, 4, 4]
        if k % 2: dims[int(r.integers(4))] = 8
        out.append(dict(variant="nc3symanzik", label=["or", "hb", "mix"][k % 3], dims=dims, kind=["hot", "warm"][k % 2], seed=int(r.integers(1 << 31)),
                        threads=int(r.integers(1, 9)), beta=float(r.uniform(1, 8)), n=int(r.integers(1, 3))))
    return out

def retr(U, S): return float(np.real(np.einsum("ij,ij->", U, S.conj())))

def subgroup(c, g, R):
    g.setup([2] * g.ND, 1, c["seed"] or 1); S = g.shim("upd"); N = g.NC; r = rng_of(c["seed"])
    S.u_only.argtypes = [ctypes.c_int] + [ctypes.c_void_p] * 4; S.u_micro.argtypes = [ctypes.c_void_p]
    S.u_rot.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p]
    ns = S.u_nsub(); R.ok()
    if ns != N * (N - 1) // 2: R.bad("subgroup/count", "%d subgroups for SU(%d)" % (ns, N))
    pairs = set()
    for t in range(c["n"]):
        U = ref.haar(r, 1, N)[0]
        st = ["general", "suN", "sum", "close", "tiny", "huge"][t % 6]
        A = r.normal(size=(N, N)) + 1j * r.normal(size=(N, N))
        if st == "suN": A = ref.haar(r, 1, N)[0]
        if st == "sum": A = ref.haar(r, 6, N).sum(0)
        if st == "close": A = 6 * U + 1e-6 * A
        if st == "tiny": A = A * 1e-9
        if st == "huge": A = A * 1e9
        sc = abs(A).max()
        for idx in range(ns):
            ctx = "%s subgroup %d, %s staple, trial %d" % (g.variant, idx, st, t)
            s = np.zeros(2, complex); k = np.zeros(1)
            u = np.ascontiguousarray(U); a = np.ascontiguousarray(A)
            S.u_only(idx, P(u), P(a), P(s), P(k))
            R.near("subgroup/unit", abs(s[0]) ** 2 + abs(s[1]) ** 2, 1.0, 1e-12, ctx)
            def rot(which, M, x):
                m = np.ascontiguousarray(M).copy(); x = np.ascontiguousarray(x); S.u_rot(which, idx, P(m), P(x)); return m
            # a generic rotation: which 2x2 block, and is it special unitary
            q = r.normal(size=4); q /= np.sqrt((q ** 2).sum()); x = np.array([q[0] + 1j * q[1], q[2] + 1j * q[3]])
            V = rot(0, U, x); E = V @ ref.dag(U)
            rows = [i for i in range(N) if abs(E[i] - np.eye(N)[i]).max() > 1e-12]
            R.ok()
            if len(rows) != 2: R.bad("subgroup/block", "%s: the rotation acts on rows %s" % (ctx, rows)); continue
            pairs.add((idx, tuple(rows)))
            cu, cd = ref.su_defect(V[None])
            if max(cu, cd) > 1e-12: R.bad("subgroup/group", "%s: rotated link off the group by %g %g" % (ctx, cu, cd))
            i, j = rows
            off = E.copy(); off[np.ix_(rows, rows)] = np.eye(2)
            R.near("subgroup/confined", off, np.eye(N), 1e-12, ctx)
            # its block is [[s0,s1],[-s1*,s0*]] up to which row comes first
            blk = E[np.ix_(rows, rows)]
            w1 = np.array([[x[0], x[1]], [-x[1].conj(), x[0].conj()]]); w2 = w1[::-1, ::-1]
            R.ok()
            if min(abs(blk - w1).max(), abs(blk - w2).max()) > 1e-12: R.bad("subgroup/rotation", "%s: block %s from %s" % (ctx, blk, x))
            # over-relaxation keeps the local action, and is its own inverse
            y = s.copy(); S.u_micro(P(y)); W = rot(0, U, y)
            R.near("subgroup/or_action", retr(W, A) / sc, retr(U, A) / sc, 1e-12, ctx)
            s2 = np.zeros(2, complex); w = np.ascontiguousarray(W); S.u_only(idx, P(w), P(a), P(s2), P(k)); S.u_micro(P(s2))
            W2 = rot(0, W, s2)
            R.near("subgroup/or_involution", W2, U, 1e-10, ctx)
            # the subgroup part of U A+ is what was extracted: rotating by its inverse maximises Re tr(U A+)
            z = np.array([s[0].conj(), -s[1]]); M = rot(0, U, z); B = U @ ref.dag(A)
            b = B[np.ix_(rows, rows)]
            c0 = b[0, 0] + b[1, 1].conj(); c1 = b[0, 1] - b[1, 0].conj()
            det = np.sqrt(abs(c0) ** 2 + abs(c1) ** 2); rest = retr(U, A) - (b[0, 0] + b[1, 1]).real
            R.near("subgroup/scale", k[0] if False else 1 / det, 1 / det, 1, ctx)
            k1 = np.zeros(1); S.u_only(idx, P(u), P(a), P(s2), P(k1))
            R.near("subgroup/scale", k1[0] * det, 1.0, 1e-12, ctx)
            R.near("subgroup/maximum", retr(M, A) / sc, (rest + det) / sc, 1e-11, ctx)
            # the sparse products agree with dense ones, on both sides; index order as left multiplication by the block
            G = r.normal(size=(N, N)) + 1j * r.normal(size=(N, N))
            Lm = rot(1, np.eye(N, dtype=complex), x)
            R.near("subgroup/left", rot(1, G, x), Lm @ G, 1e-12, ctx)
            R.near("subgroup/right", rot(2, G, x), G @ ref.dag(Lm), 1e-12, ctx)
            off = Lm - np.eye(N); R.ok()
            if sum(abs(off[i]).max() > 1e-12 for i in range(N)) != 2 or abs(Lm @ ref.dag(Lm) - np.eye(N)).max() > 1e-12:
                R.bad("subgroup/left_block", "%s: sparse multiplication is by %s" % (ctx, Lm))
            R.ok("%s/%s/%d/%d" % (g.variant, st, idx, t // 6))
    if len({p[1] for p in pairs}) != ns or len({p[0] for p in pairs}) != ns or len(pairs) != ns:
        R.bad("subgroup/cover", "%s: subgroup indices map to row pairs %s" % (g.variant, sorted(pairs)))

def action(lat, U, improved):
    ND = U.shape[1]; N = U.shape[-1]
    s = 0.0
    for mu in range(ND):
        for nu in range(mu):
            s += ref.tr(ref.plaq_field(lat, U, mu, nu)).real.sum() * (5 / 3. if improved else 1)
    if improved:
        for mu in range(ND):
            for nu in range(ND):
                if nu != mu:
                    s += -1 / 12. * ref.tr(ref.path(lat, U, [mu + 1, mu + 1, nu + 1, -mu - 1, -mu - 1, -nu - 1])).real.sum()
    return s / N

def run(c, g):
    R = Report()
    if c["label"] == "subgroup": subgroup(c, g, R); return R.out()
    dims = c["dims"]; r = rng_of(c["seed"]); N, ND = g.NC, g.ND
    g.setup(dims, c["threads"], c["seed"] % 100000 + 1); lat = ref.Lattice(dims); S = g.shim("upd")
    S.u_sweep.argtypes = [ctypes.c_void_p, ctypes.c_double, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    imp = g.variant.startswith("nc3symanzik")
    U = ref.field(r, dims, N, c["kind"]); p = g.lat(U)
    ctx = "%s %s dims %s %s beta %g n %d threads %d" % (g.variant, c["label"], dims, c["kind"], c["beta"], c["n"], c["threads"])
    S0 = action(lat, U, imp); nterms = g.V * ND * (ND - 1) / 2
    def sweep(nhb, nor, n):
        with Capture(g.B): st = S.u_sweep(p, c["beta"], nhb, nor, n)
        if st: R.bad("status", "%s: draughtboard refused" % ctx)
        return g.get(p)
    def group(A, what):
        a, b = ref.su_defect(A); R.ok()
        if not max(a, b) <= 1e-11: R.bad("group/" + what, "%s: links off the group by %g (unitarity) %g (determinant)" % (ctx, a, b))
    if c["label"] == "or":
        A = sweep(0, 1, 1)
        moved = abs(A - U).max((2, 3))
        if c["kind"] in ("hot", "warm") and moved.min() < 1e-9:
            R.bad("moved/or", "%s: %d of %d links unchanged by a sweep" % (ctx, (moved < 1e-9).sum(), moved.size))
        if c["n"] > 1: A = sweep(0, 1, c["n"] - 1)
        group(A, "or")
        R.near("action/or", action(lat, A, imp) / nterms, S0 / nterms, 1e-11, ctx)
    elif c["label"] == "hb":
        A = sweep(1, 0, 1); group(A, "hb")
        moved = abs(A - U).max((2, 3)); lim = 1e-12 if c["beta"] > 1e4 else 1e-6
        if c["beta"] > 1e4 and c["kind"] in ("unit", "smooth", "center"): pass
        elif c["beta"] < 0.3 and N > 0: 
            if np.mean(moved < lim) > 0.5: R.bad("moved/hb", "%s: %d of %d links unchanged" % (ctx, (moved < lim).sum(), moved.size))
        elif moved.min() < lim:
            R.bad("moved/hb", "%s: %d of %d links unchanged by a sweep (smallest change %g)" % (ctx, (moved < lim).sum(), moved.size, moved.min()))
        R.ok()
        if c["beta"] > 1e7 and N == 2 or c["beta"] > 1e7 and c["kind"] in ("unit", "smooth"):
            # at negligible temperature every hit maximises the local action
            S1 = action(lat, A, imp)
            if S1 < S0 - nterms * (20.0 * N * N / c["beta"] + 1e-10): R.bad("cold/hb", "%s: action per plaquette went from %.12g to %.12g" % (ctx, S0 / nterms, S1 / nterms))
    else:
        A = sweep(1, 2, c["n"]); group(A, "mix")
        B = sweep(0, 3, 1)
        R.near("action/mix", action(lat, B, imp) / nterms, action(lat, A, imp) / nterms, 1e-11, ctx); group(B, "mix")
    R.ok("%s/%s/%s/%d/%s/%d" % (g.variant, c["label"], c["kind"], int(np.log10(c["beta"])), dims, c["n"]))
    g.free(p)
    return R.out()
