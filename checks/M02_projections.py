"""Exponentials, logarithms and projections against eigen-decompositions."""
import numpy as np
from ctypes import c_char_p, c_void_p, c_double, c_int
from common import *
import ref
from glu import P, Capture
PROP = "M02"; LEVEL = "exploration"
RULE = ("every exponential, logarithm and projection x compiled colour count and instruction set x spectrum kinds (generic, degenerate pairs "
        "in each position, near-degenerate, zero, tiny 1e-12..1e-2, large up to 30, block-diagonal, diagonal); distinct by operation, variant and kind")
ASSUMPTIONS = ["the logarithm is judged only for spectra at least 0.05 away from the branch cut ",
               "get_iQ, which no feature calls, is judged for separated spectra only",
               "the trace-maximising projection iterates until the trace is stationary to 1e-14, so its group element is judged to 1e-5"]
MIN_SIGS = 200
VAR = ["nc3", "nc2", "nc4", "nc5nd3", "nc4gsl", "nc6", "nc3nosse", "nc2nosse", "nc4nosse", "nc5", "nc3gsl"]
SPEC = ["generic", "pair01", "pair12", "pair02", "nearpair", "tiny", "small", "zero", "sparse", "diag", "perm", "moderate"]

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []
    for v in VAR:
        for k in range(3 if tier == "quick" else 40):
            out.append(dict(variant=v, label="proj", seed=int(r.integers(1 << 31)), n=16 if tier == "quick" else 60))
    return out

def spectrum(r, N, kind):
    """traceless Hermitian matrix with every |eigenvalue| < pi-0.05 (the scale
    is applied by the caller)"""
    while True:
        w = r.uniform(-1, 1, N); w -= w.mean()
        if kind == "generic": w *= 2.0
        if kind == "moderate": w *= 0.5
        if kind in ("pair01", "pair12", "pair02") and N > 2:
            i, j = {"pair01": (0, 1), "pair12": (1, 2), "pair02": (0, 2)}[kind]
            w[j] = w[i]; w -= w.mean(); w *= r.choice([0.1, 1, 2])
        if kind == "nearpair": w[1] = w[0] + 10.0 ** -r.integers(2, 13); w -= w.mean()
        if kind == "tiny": w *= 10.0 ** -r.integers(5, 13)
        if kind == "small": w *= 10.0 ** -r.uniform(0.5, 5)
        if kind == "zero": w *= 0
        if kind == "perm": w = w * 1.5
        if abs(w).max() < np.pi - 0.05: break
    if kind in ("diag", "pair01") and r.random() < 0.6 or kind == "perm": V = np.eye(N)[r.permutation(N)].astype(complex)
    elif kind == "sparse":
        V = np.eye(N, dtype=complex); i = int(r.integers(0, N - 1)); V[i:i + 2, i:i + 2] = ref.haar(r, 1, 2)[0]
    else: V = ref.haar(r, 1, N)[0]
    H = (V * w) @ ref.dag(V); H = (H + ref.dag(H)) / 2
    H[N - 1, N - 1] = -sum(H[i, i] for i in range(N - 1))
    return w, V, H

def pack(h): return np.concatenate([h[i, i:] for i in range(len(h) - 1)])

def run(c, g):
    R = Report(); r = rng_of(c["seed"]); N = g.NC; n = c["n"]
    g.setup([2] * g.ND, 1); S = g.shim("proj")
    S.z_proj.argtypes = [c_char_p, c_void_p, c_void_p, c_double, c_double, c_int, c_void_p]
    HS = S.z_herm(); I = np.eye(N)
    def packed3(h):    # HERMSIZE layout of the short forms
        return pack(h)
    def call(op, a, b=None, s=0.0, t=0.0):
        def full(m):
            m = np.asarray(m, complex).reshape(n, -1); o = np.zeros((n, N * N), complex); o[:, :m.shape[1]] = m; return o
        A = full(a); B = full(np.zeros((n, N, N)) if b is None else b); o = np.zeros(n * N * N, complex)
        with Capture(g.B):
            k = S.z_proj(op.encode(), P(A), P(B), s, t, n, P(o))
        if k == -1: return None
        if k == -2: R.bad("inputs/" + op, "%s changed its input" % op); return None
        o = o[:n * k].reshape(n, k)
        return o.reshape(n, N, N) if k == N * N else o
    def cmp(op, kind, got, want, tol, a):
        if got is None: return
        want = np.asarray(want).reshape(got.shape)
        for i in range(n):
            e = abs(got[i] - want[i]).max() if np.isfinite(got[i]).all() else np.inf
            tl = tol[i] if np.ndim(tol) else tol
            R.evals += 1
            key = "err %s %s %s" % (op, kind, g.variant)
            if c.get("dbg"): R.obs[key] = max(R.obs.get(key, 0), float(e))
            if not e <= tl:
                R.bad("%s/%s" % (op, kind), "%s %s of %s spectrum is off by %.3g (allowed %.1g): argument %s gives %s, expected %s"
                      % (g.variant, op, kind, e, tl, np.asarray(a[i]).tolist(), got[i].tolist(), want[i].tolist()))
        R.ok("%s %s %s" % (op, g.variant, kind), 0)
    for kind in SPEC:
        trip = [spectrum(r, N, kind) for _ in range(n)]
        H = np.array([x[2] for x in trip]); U = ref.expih(H)
        big = H * r.choice([1.0, 3.0, 10.0], n)[:, None, None]; UB = ref.expih(big)
        cmp("exponentiate", kind, call("exponentiate", big), UB, 1e-12 * (1 + abs(big).max(axis=(1, 2))), big)
        cmp("exponentiate_short", kind, call("exponentiate_short", np.array([pack(h) for h in big])), UB, 1e-12 * (1 + abs(big).max(axis=(1, 2))), big)
        L = ref.log_su(U)
        cmp("exact_log_slow", kind, call("exact_log_slow", U), L, 1e-10, U)
        cmp("exact_log_slow_short", kind, call("exact_log_slow_short", U), np.array([pack(h) for h in L]), 1e-10, U)
        gap = min(abs(x[0][i] - x[0][j]) for x in trip for i in range(N) for j in range(i))
        if gap > 0.05: cmp("get_iQ", kind, call("get_iQ", U), L, 1e-6, U)
        cmp("brute_force_log", kind, call("brute_force_log", U), L, 1e-10, U)
        # projections of group elements and, where defined, of arbitrary matrices
        M = U if N == 2 else U + 0.3 * (r.standard_normal(U.shape) + 1j * r.standard_normal(U.shape))
        if N > 2 and kind == "generic": M = r.standard_normal(U.shape) + 1j * r.standard_normal(U.shape)
        t = ref.ta(M)
        cmp("Hermitian_proj", kind, call("Hermitian_proj", M), t, 1e-13 * 10, M)
        cmp("Hermitian_proj_short", kind, call("Hermitian_proj_short", M), np.array([pack(h) for h in t]), 1e-12, M)
        cmp("AntiHermitian_proj", kind, call("AntiHermitian_proj", M), (M - ref.dag(M)) / 2, 1e-12, M)
        cmp("AntiHermitian_proj_short", kind, call("AntiHermitian_proj_short", M), np.array([pack(1j * h) for h in t]), 1e-12, M)
        cmp("trf_AntiHermitian_proj", kind, call("trf_AntiHermitian_proj", M), 1j * t, 1e-12, M)
        # group projections: identity on the group
        for op, tol in (("gram_reunit", 1e-12), ("givens_reunit", 1e-12), ("nape_reunit", 1e-10)):
            cmp(op + " fixed", kind, call(op, U), U, tol, U)
        eps = 10.0 ** -r.uniform(0.7, 8)
        X = U @ (I + eps * (r.standard_normal(U.shape) + 1j * r.standard_normal(U.shape)) / N)
        if N == 2: X = ref.project_su(X) * r.uniform(0.3, 2, n)[:, None, None]
        gl, gr = ref.haar(r, n, N), ref.haar(r, n, N)
        for op in ("gram_reunit", "givens_reunit", "nape_reunit"):
            W = call(op, X)
            bad = ref.su_defect(W)
            if max(bad) > (1e-8 if op == "nape_reunit" else 1e-12):
                R.bad("su/%s" % op, "%s %s of a matrix at distance %.2g from SU(%d): unitarity defect %g, determinant defect %g" % ((g.variant, op, eps, N) + bad))
            R.ok("su %s %s" % (op, g.variant), n)
            if op == "gram_reunit":
                # keeps the span of the leading rows or columns, so commutes with one side
                l, rr = call(op, gl @ X), call(op, X @ gr)
                e = min(abs(l - gl @ W).max(), abs(rr - W @ gr).max())
                if not e < 1e-10: R.bad("covariance/gram", "%s gram_reunit commutes with neither left nor right multiplication (%g)" % (g.variant, e))
            else:
                B = call(op, gl @ X @ gr); e = abs(B - gl @ W @ gr).max()
                tol = 1e-5 if op == "givens_reunit" else 1e-8
                if not e < tol: R.bad("covariance/" + op, "%s %s is not covariant under group multiplication: %g at distance %.2g" % (g.variant, op, e, eps))
            if op == "givens_reunit":
                st = abs(ref.ta(X @ ref.dag(W))).max()
                if not st < 1e-5 * max(1, abs(X).max()): R.bad("stationary/givens", "%s trace not maximal: gradient %g at distance %.2g from the group" % (g.variant, st, eps))
            if op == "nape_reunit":
                e = abs(W - ref.project_su(X)).max()
                if not e < 1e-8: R.bad("polar/nape", "%s n-APE projection differs from the polar projection by %g" % (g.variant, e))
            R.ok("cov %s %s %s" % (op, g.variant, kind), n)
        # eigenvalues
        ev = call("Eigenvalues_suNC", U)
        if ev is not None:
            for i in range(n):
                w = np.linalg.eigvals(U[i]); d = max(min(abs(w - z)) for z in ev[i]) + max(min(abs(ev[i] - z)) for z in w)
                R.evals += 1
                if c.get("dbg"): R.obs["err ev %s %s" % (kind, g.variant)] = max(R.obs.get("err ev %s %s" % (kind, g.variant), 0), float(d))
                if not d < 1e-4: R.bad("eigenvalues/group", "%s eigenvalues of an SU(%d) matrix (%s) off by %g" % (g.variant, N, kind, d))
        if N < 4 or g.variant.endswith("gsl"):
            ev = call("Eigenvalues_hermitian", H)
            for i in range(n):
                d = abs(np.sort(ev[i].real) - np.linalg.eigvalsh(H[i])).max(); R.evals += 1
                if not d < 1e-5: R.bad("eigenvalues/hermitian", "%s eigenvalues of a Hermitian matrix (%s) off by %g" % (g.variant, kind, d))
    return R.out()

if __name__ == "__main__":
    import fw; fw.main(__name__)
