"""Streams of the real generators: reproducibility, separation, uniformity, Gaussians, random group elements."""
import ctypes
import numpy as np
from math import erfc, sqrt
from common import *
import ref, rupd
from glu import P, Capture
PROP = "R01"; LEVEL = "exploration"
RULE = ("every selectable generator; random seeds including 1 and the largest, 1-8 threads, serial, interleaved and truly parallel draws; "
        "half a million draws per stream through Kolmogorov-Smirnov, serial, lag, bit and successor-smoothness tests; Gaussian moments; Haar "
        "moments of random group elements for SU(2..6); random fields and transformations; distinct by generator, test, seed and threads")
ASSUMPTIONS = ["every statistical test has a false-alarm probability below 1e-9", "stream t of seed s may equal stream t-1 of seed s+1 (streams are numbered by consecutive seeds)"]
MIN_SIGS = 60
GEN = ["nc3", "nc3kiss", "nc3mwc1038", "nc3xor", "nc3well", "nc3gslrng"]
GRP = ["nc3", "nc2", "nc4", "nc5nd3", "nc3nosse", "nc4nosse", "nc2nosse", "nc6"]
BUILDS = sorted(set(GEN + GRP))
PT = 1e-10

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; rep = 1 if tier == "quick" else 6
    for v in GEN:
        for k in range(4 * rep):
            out.append(dict(variant=v, label="streams", seed=int([1, 4294967295 - 20, 123456789][k] if k < 3 else r.integers(1, 1 << 32)), threads=int(r.integers(2, 9) if k % 4 else r.integers(9, 41)), n=int(r.integers(50, 9000))))
        for k in range(2 * rep):
            out.append(dict(variant=v, label="uniform", seed=int(r.integers(1, 1 << 32)), threads=int(r.integers(1, 9)), n=500000))
            out.append(dict(variant=v, label="gauss", seed=int(r.integers(1, 1 << 32)), threads=int(r.integers(1, 9)), n=200000))
        out.append(dict(variant=v, label="entropy", seed=0, threads=3, n=1000))
    for v in GRP:
        for k in range(rep):
            out.append(dict(variant=v, label="group", seed=int(r.integers(1, 1 << 32)), threads=int(r.integers(1, 9)), n=60000))
            out.append(dict(variant=v, label="fields", seed=int(r.integers(1, 1 << 32)), threads=int(r.integers(1, 9)), n=0, dims=dims_of(r, ncnd(v)[1], 2, 5, 300)))
    return out

def npv(x, mean, sd):
    """normal p-value that the average of x is mean when single entries have deviation sd"""
    return erfc(abs(np.mean(x) - mean) / (sd / sqrt(np.size(x))) / sqrt(2))
def chi_p(counts, expect):
    from scipy.stats import chi2
    x = ((counts - expect) ** 2 / expect).sum()
    return float(min(chi2.sf(x, counts.size - 1), chi2.cdf(x, counts.size - 1)))

def setup(c, g, seed=None, threads=None):
    g.setup(c.get("dims", [2] * g.ND), threads or c["threads"], c["seed"] if seed is None else seed)
    S = g.shim("rng")
    S.r_init.argtypes = [ctypes.c_char_p]
    for f in ("r_draw", "r_int", "r_polar", "r_box", "r_sun"): getattr(S, f).argtypes = [ctypes.c_void_p, ctypes.c_long, ctypes.c_uint]
    S.r_par.argtypes = [ctypes.c_void_p, ctypes.c_long]
    S.r_field.argtypes = [ctypes.c_void_p]; S.r_transform.argtypes = [ctypes.c_void_p] * 2; S.r_gtrans.argtypes = [ctypes.c_void_p]
    with Capture(g.B): st = S.r_init(None)
    return S, st

def draw(S, n, t):
    a = np.zeros(n); S.r_draw(P(a), n, t); return a

def streams(c, g, R, ctx):
    n, T = c["n"], c["threads"]
    S, st = setup(c, g)
    if st: R.bad("streams/init", ctx + ": initialisation failed"); return
    A = [draw(S, n, t) for t in range(T)]
    S, st = setup(c, g); B = [None] * T
    r = rng_of(c["seed"], "order")
    # the same draws interleaved in another order
    parts = {t: [] for t in range(T)}; left = {t: n for t in range(T)}
    while any(left.values()):
        t = int(r.choice([t for t in left if left[t]])); k = min(left[t], int(r.integers(1, 1 + max(1, n // 3)))); parts[t].append(draw(S, k, t)); left[t] -= k
    for t in range(T):
        if not np.array_equal(np.concatenate(parts[t]), A[t]): R.bad("streams/reproducible", "%s: stream %d changed when drawn again in another order" % (ctx, t))
    S, st = setup(c, g); C = np.zeros((T, n)); S.r_par(P(C), n)
    if not np.array_equal(C, np.array(A)): R.bad("streams/parallel", "%s: streams drawn by parallel threads differ from the serial ones" % ctx)
    # stream 0 does not depend on the number of threads
    S, st = setup(c, g, threads=1 + T % 8); D = draw(S, n, 0)
    if not np.array_equal(D, A[0]): R.bad("streams/threads", "%s: stream 0 depends on the number of threads" % ctx)
    S, st = setup(c, g, seed=c["seed"] ^ 0x5555); E = [draw(S, n, t) for t in range(T)]
    allst = A + E
    for i in range(len(allst)):
        for j in range(i):
            if (allst[i] == allst[j]).mean() > 0.01: R.bad("streams/distinct", "%s: streams %d and %d (of %d threads, two seeds) share numbers" % (ctx, i, j, T))
    p = min([rupd.corr_p(a, b) for i, a in enumerate(A) for b in A[:i]] + [1.0])
    if p < PT: R.bad("streams/independent", "%s: correlated streams, p=%.2g" % (ctx, p))
    R.ok("%s/streams/%d/%d" % (g.variant, c["seed"], T), 6 * n * T)

def uniform(c, g, R, ctx):
    n, T = c["n"], c["threads"]; S, st = setup(c, g); t = c["seed"] % T
    u = draw(S, n, t)
    if not (u.min() >= 0 and u.max() <= 1): R.bad("uniform/range", "%s: values from %.17g to %.17g" % (ctx, u.min(), u.max())); return
    res = {"mean": npv(u, .5, sqrt(1 / 12.)), "variance": npv((u - .5) ** 2, 1 / 12., sqrt(1 / 180.)), "distribution": rupd.ks_p(u)[0]}
    for lag in (1, 2, 3, 5, 16, 17, 1037, 1038, 4096):
        res["lag %d" % lag] = rupd.corr_p(u[lag:], u[:-lag])
        res["lag %d squares" % lag] = rupd.corr_p((u[lag:] - .5) ** 2, (u[:-lag] - .5) ** 2)
    k = 64; h = np.bincount((np.floor(u[0::2] * k).clip(0, k - 1) * k + np.floor(u[1::2] * k).clip(0, k - 1)).astype(int), minlength=k * k)
    res["pairs"] = chi_p(h, h.sum() / float(k * k))
    k = 12; m = n // 3 * 3; q = np.floor(u[:m] * k).clip(0, k - 1).reshape(-1, 3).astype(int); h = np.bincount(q[:, 0] * k * k + q[:, 1] * k + q[:, 2], minlength=k ** 3)
    res["triples"] = chi_p(h, h.sum() / float(k ** 3))
    for b in (1, 2, 4, 8, 12, 16, 20, 24, 28):
        bit = np.floor(u * 2.0 ** b) % 2; res["bit %d" % b] = npv(bit, .5, .5)
        res["bit %d pairs" % b] = npv((bit[1:] == bit[:-1]).astype(float), .5, .5)
    # if close numbers had close successors (a small multiplier), sorted neighbours would show it
    for lag in (1, 2, 3):
        o = np.argsort(u[:-lag], kind="stable"); d = (u[lag:][o][1:] - u[lag:][o][:-1]) % 1.0
        res["successors of neighbours, lag %d" % lag] = rupd.ks_p(d[::2])[0]
    # runs below one half: geometric
    R.ok("%s/uniform/%d" % (g.variant, c["seed"]), len(res)); R.obs["uniform draws " + g.variant] = n
    if np.unique(u).size < 0.99 * n: res["distinct values"] = 0.0
    w = min(res, key=res.get)
    if res[w] < PT: R.bad("uniform/" + w.split()[0], "%s: %s test has p=%.2g on %d draws of stream %d" % (ctx, w, res[w], n, t))
    i = np.zeros(1000, np.uint32); S.r_int(P(i), 1000, t)
    if not (npv(i / 4294967295., .5, sqrt(1 / 12.)) > PT and np.unique(i).size > 990): R.bad("uniform/int", ctx + ": integers are not uniform")

def gauss(c, g, R, ctx):
    from scipy.special import ndtr
    n, T = c["n"], c["threads"]; S, st = setup(c, g); t = c["seed"] % T
    x = np.zeros(n); S.r_polar(P(x), n, t); z = np.zeros(n, complex); S.r_box(P(z), n, t)
    for name, y, s in (("real", x, 1.0), ("complex re", z.real, sqrt(.5)), ("complex im", z.imag, sqrt(.5))):
        if not np.isfinite(y).all(): R.bad("gauss/finite", "%s: %s variate is not finite" % (ctx, name)); continue
        res = {"mean": npv(y, 0, s), "variance": npv(y * y, s * s, sqrt(2) * s * s), "shape": rupd.ks_p(ndtr(y / s))[0], "lag 1": rupd.corr_p(y[1:], y[:-1]),
               "lag 1 squares": rupd.corr_p(y[1:] ** 2, y[:-1] ** 2), "fourth moment": npv(y ** 4, 3 * s ** 4, sqrt(96.) * s ** 4)}
        w = min(res, key=res.get); R.ok("%s/gauss/%s/%d" % (g.variant, name, c["seed"]), len(res))
        if res[w] < PT: R.bad("gauss/" + name, "%s: %s Gaussian %s test has p=%.2g (mean %.5f variance %.5f)" % (ctx, name, w, res[w], y.mean(), y.var()))
    res = {"re im": rupd.corr_p(z.real, z.imag), "squares": rupd.corr_p(z.real ** 2, z.imag ** 2)}
    w = min(res, key=res.get)
    if res[w] < PT: R.bad("gauss/complex", "%s: components dependent, %s p=%.2g" % (ctx, w, res[w]))

def group(c, g, R, ctx):
    n, N = c["n"], g.NC; S, st = setup(c, g); t = c["seed"] % c["threads"]
    U = np.zeros((n, N, N), complex); S.r_sun(P(U), n, t)
    a, b = ref.su_defect(U)
    if not max(a, b) <= 1e-11: R.bad("group/member", "%s: off the group by %g %g" % (ctx, a, b))
    r = rng_of(c["seed"], "A"); X = ref.haar(r, 2, N); A, B = X
    res = {}
    for nm, M in (("U", U), ("AU", A @ U), ("UB", U @ B), ("AUB", A @ U @ B)):
        tr = ref.tr(M); m2 = abs(tr) ** 2
        res[nm + " trace re"] = npv(tr.real, 0, 1.0 if N == 2 else sqrt(.5)); res[nm + " trace im"] = npv(tr.imag, 0, max(tr.imag.std(), 1e-300)) if N > 2 else 1.0
        res[nm + " |tr|^2"] = npv(m2, 1, 1.0); 
        m4 = m2 ** 2; res[nm + " |tr|^4"] = npv(m4, 2, m4.std())
        for k in range(2, 7):
            e = {2: {2: 1, 4: 2, 6: 5}, 3: {3: 1, 6: 5}, 4: {4: 1}, 5: {5: 1}, 6: {6: 1}}[N].get(k, 0)
            y = (tr ** k).real; res[nm + " Re tr^%d" % k] = npv(y, e, y.std())
            y = (tr ** k).imag
            if N > 2: res[nm + " Im tr^%d" % k] = npv(y, 0, y.std())
        for i in range(N):
            for j in range(N):
                y = abs(M[:, i, j]) ** 2; res[nm + " |U_%d%d|^2" % (i, j)] = npv(y, 1.0 / N, y.std())
                res[nm + " U_%d%d re" % (i, j)] = npv(M[:, i, j].real, 0, M[:, i, j].real.std()); res[nm + " U_%d%d im" % (i, j)] = npv(M[:, i, j].imag, 0, M[:, i, j].imag.std())
        # |U_ij|^2 follows Beta(1,N-1)
        for i, j in ((0, 0), (N - 1, N - 1), (0, N - 1), (N - 1, 0)): res[nm + " |U_%d%d|^2 distribution" % (i, j)] = rupd.ks_p(1 - (1 - np.minimum(1, abs(M[:, i, j]) ** 2)) ** (N - 1))[0]
    tr = ref.tr(U); res["lag 1"] = rupd.corr_p(tr.real[1:], tr.real[:-1])
    w = min(res, key=res.get); R.ok("%s/group/%d" % (g.variant, c["seed"]), len(res)); R.obs["group elements " + g.variant] = n
    if res[w] < PT: R.bad("group/haar", "%s: %s test has p=%.2g on %d elements" % (ctx, w, res[w], n))

def fields(c, g, R, ctx):
    S, st = setup(c, g); lat = ref.Lattice(c["dims"]); p = g.lat()
    with Capture(g.B): S.r_field(p)
    U = g.get(p); a, b = ref.su_defect(U)
    if not max(a, b) <= 1e-11: R.bad("fields/member", "%s: random links off the group by %g %g" % (ctx, a, b))
    M = U.reshape(-1, g.NC, g.NC)
    if np.unique(np.round(M[:, 0, 0], 9)).size < len(M) - 3: R.bad("fields/distinct", "%s: random links repeat" % ctx)
    nl = len(M); m = abs(ref.tr(M)).mean()
    if npv(ref.tr(M).real, 0, 1.0) < PT: R.bad("fields/mean", "%s: average trace %g" % (ctx, ref.tr(M).real.mean()))
    # random transformation: links are transformed by the returned matrices, which are in the group
    h = g.gfield(np.zeros((g.V, g.NC, g.NC)))
    with Capture(g.B): S.r_transform(p, h)
    G = g.gget(h); W = g.get(p); a, b = ref.su_defect(G)
    if not max(a, b) <= 1e-11: R.bad("fields/transform", "%s: random transformation off the group by %g %g" % (ctx, a, b))
    R.near("fields/transform", W, ref.transform(lat, U, G), 1e-11, ctx)
    with Capture(g.B): S.r_gtrans(p)
    X = g.get(p)
    R.near("fields/gtrans", np.array([ref.tr(ref.plaq_field(lat, X, mu, nu)) for mu in range(g.ND) for nu in range(mu)]),
           np.array([ref.tr(ref.plaq_field(lat, W, mu, nu)) for mu in range(g.ND) for nu in range(mu)]), 1e-11, ctx)
    if abs(X - W).max((2, 3)).min() < 1e-6: R.bad("fields/gtrans", "%s: a link was not transformed" % ctx)
    # same seed and threads: the same field again
    S, st = setup(c, g); q = g.lat()
    with Capture(g.B): S.r_field(q)
    if not np.array_equal(g.get(q), U): R.bad("fields/reproducible", "%s: the same seed and thread count gave another field" % ctx)
    g.B.v_gfree(h); g.free(p); g.free(q)
    R.ok("%s/fields/%s/%d" % (g.variant, c["dims"], c["threads"]), 6)

def run(c, g):
    R = Report(); ctx = "%s %s seed %d threads %d" % (g.variant, c["label"], c["seed"], c["threads"])
    if c["label"] == "entropy":
        S, st = setup(c, g); a = draw(S, c["n"], 0); S, st2 = setup(c, g); b = draw(S, c["n"], 0)
        if st or st2: R.bad("entropy/init", ctx + ": failed")
        if np.array_equal(a, b) or npv(a, .5, sqrt(1 / 12.)) < PT: R.bad("entropy/fresh", ctx + ": seed 0 did not give fresh uniform numbers")
        R.ok("%s/entropy" % g.variant, 2)
    else: globals()[c["label"]](c, g, R, ctx)
    return R.out()
