"""The quenched U(1) field."""
import ctypes, re
import numpy as np
from common import *
import ref
from glu import P, Capture
PROP = "X01"; LEVEL = "exploration"
RULE = ("suNC_cross_u1 on unit, random and smooth fields of odd, even and unequal extents, 1-8 threads, any coupling and charge: what each link is multiplied with is a phase, the same for a seed, thread count and any links, linear in the charge and in the root of the coupling, without zero modes; "
        "the momentum modes of hundreds of seeds are tested against independent Gaussians of the free Feynman-gauge variance, over all modes together, for every mode and every direction separately, and for correlations between modes, directions and parts; "
        "the reported plaquettes, rectangles and topology are recomputed from that field, and the topology of large fields is invariant under gauge transformations, translations and relabelling of the directions; distinct by variant, kind, extents and seed")
ASSUMPTIONS = ["e = sqrt(4 pi alpha), action sum F^2/2 at noncompact beta = 1/e^2, modes without spatial momentum are zero (QED_L), as the comments and references of the code say", "every statistical test has a false-alarm probability below 1e-10"]
MIN_SIGS = 60
VAR = ["nc3", "nc2", "nc4gsl", "nc5nd3", "nc3nd3", "nc3_san", "nc5nd3_san"]
BUILDS = VAR + ["nc4"]
TIMEOUT = 200; PT = 1e-11

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; rep = 1 if tier == "quick" else 10
    for k in range(rep):
        for v in VAR + ["nc4"]:
            N, ND = ncnd(v); san = v.endswith("_san")
            for j in range(3):
                out.append(dict(variant=v, label="phases", dims=dims_of(r, ND, 2, 7, 400), seed=int(r.integers(1, 1 << 31)), threads=int(r.integers(1, 9)), n=4))
            if v == "nc4": continue
            for j in range(2):
                out.append(dict(variant=v, label="reports", dims=dims_of(r, ND, 2, 6, 400), seed=int(r.integers(1, 1 << 31)), threads=int(r.integers(1, 9)), n=3))
                out.append(dict(variant=v, label="topology", dims=dims_of(r, ND, 2, 6, 400), seed=int(r.integers(1, 1 << 31)), threads=int(r.integers(1, 9)), n=4))
            if san: continue
            for j in range(4):
                d = dims_of(r, ND, 2, 6, 260)
                if j == 0: d = [x | 1 for x in dims_of(r, ND, 2, 4, 100)]
                if j == 1: d = dims_of(r, ND, 2, 4, 260, even=True)
                out.append(dict(variant=v, label="modes", dims=d, seed=int(r.integers(1, 1 << 31)), threads=int(r.choice([1, 1, 2, 3, 8])), n=200 if tier == "quick" else 500))
    for v in ("nc2", "nc3"):
        if v in VAR: out += [dict(variant=v, label=l, dims=big_dims(r, 4, V, int(1.3 * V)), seed=int(r.integers(1, 1 << 31)), threads=int(r.integers(1, 9)), n=n) for l, n, V in (("phases", 2, 66000 if v == "nc2" else 9000), ("reports", 2, 9000), ("topology", 2, 9000))]
    return out

def setup(g, dims, threads, seed):
    g.setup(dims, threads, seed); S = g.shim("u1")
    S.x_cross.argtypes = [ctypes.c_void_p, ctypes.c_double, ctypes.c_double, ctypes.c_int]
    S.x_top.argtypes = [ctypes.c_void_p] * 4; S.x_obs.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
    return S

def cross(g, dims, threads, seed, U, alpha, charge, meas=0):
    """-> status, links after, what was printed"""
    S = setup(g, dims, threads, seed); q = g.lat(U)
    with Capture(g.B) as cap: st = S.x_cross(q, alpha, charge, meas)
    A = g.get(q); g.free(q)
    return st, A, cap.text

def phases(U, W):
    """what the links were multiplied with and how far that is from a phase"""
    M = W @ ref.dag(U); N = U.shape[-1]; z = np.einsum("...ii", M) / N
    return z, abs(M - z[..., None, None] * np.eye(N)).max(), abs(abs(z) - 1).max()

def photon(g, dims, threads, seed):
    """the field A[site, mu] itself, from a coupling so small that nothing wraps"""
    U = np.zeros((int(np.prod(dims)), g.ND, g.NC, g.NC), complex); U[...] = np.eye(g.NC)
    alpha = 1e-3; e = np.sqrt(4 * np.pi * alpha)
    st, W, txt = cross(g, dims, threads, seed, U, alpha, 1.0)
    return st, np.angle(W[..., 0, 0]) / e, txt

def faces(L, A):
    F = np.zeros((L.ND, L.ND, L.V))
    for m in range(L.ND):
        for n in range(L.ND):
            if m != n: F[m, n] = A[:, m] + A[L.fw[m], n] - A[L.fw[n], m] - A[:, n]
    return F

def reference(L, A):
    """plaquettes and rectangles of a non-compact field"""
    F = faces(L, A); p = [F[m, n] for m in range(L.ND) for n in range(m)]; q = []
    for m in range(L.ND):
        for n in range(L.ND):
            if m != n: q.append(F[m, n] + F[m, n][L.fw[m]])       # 2 steps in m
    p, q = np.array(p), np.array(q)
    d = dict(np_=(p ** 2).mean(), cp=np.cos(p).mean(), nr=(q ** 2).mean(), cr=np.cos(q).mean())
    d["q"] = float((F[0, 1] * F[2, 3] + F[0, 2] * F[3, 1] + F[0, 3] * F[1, 2]).sum() / (64 * np.pi ** 2) if L.ND == 4 else 0)
    d["sheet"] = int(sum(abs(np.trunc(x / (2 * np.pi))).sum() for x in p))
    S = np.trunc(F / (2 * np.pi)); mono = 0
    for mu in range(L.ND):
        o = [k for k in range(L.ND) if k != mu]; M = np.zeros(L.V)
        for j, nu in enumerate(o):
            rs = [k for k in o if k != nu]
            if len(rs) == 2: a, b = rs; M += (-1) ** j * (S[a, b][L.fw[nu]] - S[a, b])
        if L.ND == 4: mono += int(abs(M).sum())
    d["mono"] = mono
    return d

def run(c, g):
    R = Report(); r = rng_of(c["seed"]); N, ND = g.NC, g.ND; dims = c["dims"]; T = c["threads"]; V = int(np.prod(dims)); L = ref.Lattice(dims); lab = c["label"]
    ctx0 = "%s dims %s threads %d" % (g.variant, dims, T); sd = c["seed"]
    if lab == "phases":
        for k in range(c["n"]):
            kind = ["hot", "unit", "smooth", "gaugeunit"][k % 4]; U = ref.field(r, dims, N, kind); alpha = float(10 ** r.uniform(-6, 1)); q = float(r.choice([-1, 1, 2 / 3, -1 / 3, r.normal() * 3])); ctx = ctx0 + " %s alpha %g charge %g seed %d" % (kind, alpha, q, sd + k)
            st, W, txt = cross(g, dims, T, sd + k, U, alpha, q)
            R.ok("%s/%s/%s" % (g.variant, dims, sd + k))
            if g.variant == "nc4":       # no Fourier transform, so no photons: it says so and touches nothing
                if st == 0: R.bad("nofft", ctx + ": success without a Fourier transform")
                R.near("nofft/links", W, U, 0, ctx); continue
            if st: R.bad("fails", "%s: %s" % (ctx, txt[-400:])); continue
            z, dev, mod = phases(U, W); R.ok(n=2)
            if dev > 1e-12 or mod > 1e-12: R.bad("phase", "%s: links are multiplied with something %g from a multiple of one, of modulus %g from one" % (ctx, dev, mod)); continue
            # the same again, on other links
            st, W2, _ = cross(g, dims, T, sd + k, U, alpha, q); R.near("reproducible", W2, W, 0, ctx)
            I = ref.field(r, dims, N, "unit"); st, W3, _ = cross(g, dims, T, sd + k, I, alpha, q, int(r.integers(3))); R.near("links", phases(I, W3)[0], z, 1e-11, ctx + ": other links")
            st, W4, _ = cross(g, dims, T, sd + k, U, alpha, -q); R.near("conjugate", phases(U, W4)[0], z.conj(), 1e-11, ctx + ": opposite charge")
            st, A, _ = photon(g, dims, T, sd + k)
            R.near("coupling", np.exp(1j * A * np.sqrt(4 * np.pi * alpha) * q), z, 1e-9 * (1 + abs(q) * np.sqrt(alpha)), ctx + ": coupling and charge")
            st, B, _ = photon(g, dims, T, sd + k + 1000003); R.ok()
            if abs(A - B).max() < 0.05 * abs(A).max(): R.bad("seed", "%s: another seed gives the same field" % ctx)
            for a2, q2 in ((0.0, q), (alpha, 0.0), (0.0, 0.0)):
                st, W5, txt = cross(g, dims, T, sd + k, U, a2, q2); R.near("nothing", W5, U, 1e-14, ctx + " coupling %g charge %g" % (a2, q2))
            # no modes without spatial momentum
            X = A.reshape(dims[-1], -1, ND); R.near("zeromode", X.mean(axis=1), np.zeros((dims[-1], ND)), 1e-10, ctx)
    elif lab == "modes":
        n = c["n"]; Z = np.zeros((n, V, ND), complex)
        kh = sum(4 * np.sin(np.pi * L.x[m] / dims[m]) ** 2 for m in range(ND)); sp = (L.x[:ND - 1] != 0).any(axis=0)
        neg = L.index(-L.x); ax = tuple(range(ND))
        for k in range(n):
            st, A, txt = photon(g, dims, T, sd + k)
            if st: R.bad("fails", "%s: %s" % (ctx0, txt[-400:])); return R.out()
            F = np.fft.fftn(A.reshape(list(dims)[::-1] + [ND]), axes=ax).reshape(V, ND) / np.sqrt(V)
            Z[k] = F * np.sqrt(kh)[:, None]
        from scipy.stats import kstest, chi2, norm
        R.ok("%s/%s/%d" % (g.variant, dims, sd), n * V)
        if abs(Z[:, ~sp]).max(initial=0) > 1e-8: R.bad("modes/zero", "%s: modes without spatial momentum of size %g" % (ctx0, abs(Z[:, ~sp]).max()))
        half = np.nonzero(sp & (np.arange(V) < neg))[0]; own = np.nonzero(sp & (np.arange(V) == neg))[0]
        # real independent variables, which should all be standard normal: [seed, mode, mu]
        parts = [(Z[:, half].real * np.sqrt(2), half, "re"), (Z[:, half].imag * np.sqrt(2), half, "im"), (Z[:, own].real, own, "self")]
        Y = np.concatenate([p[0] for p in parts], axis=1); name = [(int(m), t) for p in parts for m in p[1] for t in [p[2]]]
        if Y.shape[1] == 0: return R.out()
        def test(key, p, txt):
            R.ok(); R.obs["smallest p " + key] = min(R.obs.get("smallest p " + key, 1), float(p))
            if p < PT: R.bad("modes/" + key, "%s, %d seeds from %d: %s (p = %.2g)" % (ctx0, n, sd, txt, p))
        y = Y.ravel(); test("gaussian", kstest(y, "norm").pvalue, "modes over their free deviation are not standard normal: mean %g variance %g" % (y.mean(), y.var()))
        x = (Y ** 2).sum(axis=(0, 2)); dof = n * ND; p = 2 * np.minimum(chi2.sf(x, dof), chi2.cdf(x, dof)); j = int(p.argmin())
        test("variance", p[j] * len(p), "mode %s (%s) has %g times its variance" % ([int(a) for a in L.x[:, name[j][0]]], name[j][1], x[j] / dof))
        x = (Y ** 2).sum(axis=(0, 1)); dof = n * Y.shape[1]; p = 2 * np.minimum(chi2.sf(x, dof), chi2.cdf(x, dof)); j = int(p.argmin())
        test("direction", p[j] * ND, "direction %d has %g times its variance" % (j, x[j] / dof))
        s = Y.sum(axis=(0, 2)) / np.sqrt(n * ND); j = int(abs(s).argmax()); test("mean", 2 * norm.sf(abs(s[j])) * len(s), "mode %s (%s) has a mean of %g" % ([int(a) for a in L.x[:, name[j][0]]], name[j][1], s[j] / np.sqrt(n * ND)))
        # correlations of everything with everything, and between consecutive seeds
        f = Y.reshape(n, -1); K = f.shape[1]; C = f.T @ f / np.sqrt((f ** 2).sum(axis=0)[:, None] * (f ** 2).sum(axis=0)[None]); np.fill_diagonal(C, 0)
        def pc(cc, m, cnt):   # correlation coefficient of m pairs
            t = abs(cc) * np.sqrt(max(m - 2, 1) / max(1e-300, 1 - cc * cc))
            from scipy.stats import t as st_
            return 2 * st_.sf(t, m - 2) * cnt
        i, j = np.unravel_index(int(abs(C).argmax()), C.shape)
        test("correlation", pc(C[i, j], n, K * K / 2), "%s direction %d and %s direction %d are correlated by %g" % (name[i // ND], i % ND, name[j // ND], j % ND, C[i, j]))
        for lag in range(1, min(T, 4) + 1):
            # stream t of one seed is stream t-1 of the next, so only seeds further apart than the threads are independent
            a, b = Y[:-(T + lag)].ravel(), Y[T + lag:].ravel(); cc = (a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum()); test("seeds", pc(cc, a.size, 4), "seeds %d apart are correlated by %g" % (T + lag, cc))
        sq = (Y ** 2 - 1).reshape(n, -1); cc = np.array([np.mean(sq[:, a] * sq[:, b]) / 2 for a, b in zip(r.integers(K, size=200), r.integers(K, size=200)) if a != b])
    elif lab == "reports":
        for k in range(c["n"]):
            U = ref.field(r, dims, N, "hot"); ctx = ctx0 + " seed %d" % (sd + k)
            st, A, _ = photon(g, dims, T, sd + k); want = reference(L, A)
            for meas in (0, 1, 2):
                st, W, txt = cross(g, dims, T, sd + k, U, 0.3, float(r.normal()), meas); check_text(R, txt, want, meas, ctx, 0)
                S = setup(g, dims, T, 1); q = g.lat(U); B = np.ascontiguousarray(r.normal(size=(V, ND)) * float(r.choice([0.1, 1, 5])))
                with Capture(g.B) as cap: S.x_obs(q, P(B), meas)
                g.free(q); check_text(R, cap.text, reference(L, B), meas, ctx + " any field", 1); R.ok("%s/%s/%d/%d" % (g.variant, dims, sd + k, meas))
    else:
        S = setup(g, dims, T, 1)
        def top(dm, A):
            S = setup(g, dm, T, 1); m, d, q = ctypes.c_int(), ctypes.c_int(), ctypes.c_double()
            S.x_top(P(np.ascontiguousarray(A)), ctypes.byref(m), ctypes.byref(d), ctypes.byref(q)); return m.value, d.value, q.value
        for k in range(c["n"]):
            A = r.normal(size=(V, ND)) * float(r.choice([1, 4, 10])); ctx = ctx0 + " topology"
            if k == 0: A = r.normal(size=(V, ND)) * 0.3
            w = reference(L, A); m, d, q = top(dims, A); R.ok("%s/%s/%d %d %d" % (g.variant, dims, sd, m, d), 3)
            if m != w["mono"]: R.bad("topology/monopoles", "%s: %d instead of %d" % (ctx, m, w["mono"]))
            if d != w["sheet"]: R.bad("topology/sheets", "%s: %d instead of %d" % (ctx, d, w["sheet"]))
            R.near("topology/charge", q, w["q"], 1e-9, ctx, scale=abs(A).max() ** 2 * np.sqrt(V))
            # gauge transformation, translation, relabelled directions
            lam = r.normal(size=V) * 3; B = A + np.stack([lam - lam[L.fw[mu]] for mu in range(ND)], axis=1)
            sh = L.index(L.x + np.array([int(r.integers(D)) for D in dims])[:, None]); per = [int(x) for x in r.permutation(ND)]
            L2 = ref.Lattice([dims[p] for p in per]); src = L.index(np.array([L2.x[per.index(mu)] for mu in range(ND)]))
            odd = np.linalg.det(np.eye(ND)[per]) < 0
            for nm, dm, X, sg in (("gauge", dims, B, 1), ("translation", dims, A[sh], 1), ("relabelling", L2.dims, A[src][:, per], -1 if odd else 1)):
                m2, d2, q2 = top(dm, X); R.ok(n=3)
                if m2 != m: R.bad("topology/%s/monopoles" % nm, "%s: %d becomes %d (%s)" % (ctx, m, m2, per))
                if d2 != d: R.bad("topology/%s/sheets" % nm, "%s: %d becomes %d" % (ctx, d, d2))
    return R.out()

def check_text(R, txt, w, meas, ctx, any_):
    f = lambda pat: [float(x) for x in (re.search(pat, txt).groups() if re.search(pat, txt) else [])]
    num = r"([-+0-9.eEinfa]+)"
    p = f(r"Plaquettes \[NON-COMPACT\] %s \[COMPACT\] %s" % (num, num)); R.ok(n=2)
    if len(p) != 2 or abs(p[0] - w["np_"]) > 2e-6 * (1 + w["np_"]) or abs(p[1] - w["cp"]) > 2e-6: R.bad("reports/plaquettes", "%s: reports %s instead of %s: %s" % (ctx, p, (w["np_"], w["cp"]), txt[-400:]))
    if meas == 1:
        p = f(r"Rectangle *\[NON-COMPACT\] %s *\[COMPACT\] %s" % (num, num)); R.ok(n=2)
        if len(p) != 2 or abs(p[0] - w["nr"]) > 2e-6 * (1 + w["nr"]) or abs(p[1] - w["cr"]) > 2e-6: R.bad("reports/rectangles", "%s: reports %s instead of %s" % (ctx, p, (w["nr"], w["cr"])))
    if meas == 2:
        p = f(r"\[Monopole\] %s *\[Dirac_Sheet\] %s *\[QTOP\] %s" % (num, num, num)); R.ok(n=3)
        if len(p) != 3 or p[0] != w["mono"] or p[1] != w["sheet"] or abs(p[2] - w["q"]) > 1e-4 * (1e-3 + abs(w["q"])): R.bad("reports/topology", "%s: reports %s instead of %s" % (ctx, p, (w["mono"], w["sheet"], w["q"])))
    if not any_:
        p = f(r"Norm U \(should be zero\) %s" % num); R.ok()
        if len(p) != 1 or not p[0] < 1e-6: R.bad("reports/norm", "%s: %s" % (ctx, p))
