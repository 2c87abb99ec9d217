"""Every matrix kernel against the textbook result in numpy."""
import numpy as np
from ctypes import c_char_p, c_void_p, c_double, c_int
from common import *
import ref
from glu import P, Capture
PROP = "M01"; LEVEL = "exploration"
RULE = ("every kernel x compiled colour count and instruction set x argument kinds (general, near unit, group, abelian, centre, "
        "permutation, singular-looking leading entries, scaled by 1e-6..1e6); distinct by kernel, variant and argument kind")
ASSUMPTIONS = ["rounding accuracy: 1e-12 relative to the product of the argument norms, scaled by the condition number for inverses"]
MIN_SIGS = 300
VAR = ["nc3", "nc2", "nc4", "nc5nd3", "nc4gsl", "nc6", "nc3nosse", "nc2nosse", "nc4nosse", "nc5"]
GENERAL = ["general", "scaled", "perm", "zerolead", "neardiag"]
GROUP = ["haar", "smooth", "center", "diag", "unitmat", "permsu"]

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []
    for v in VAR:
        for k in range(6 if tier == "quick" else 60):
            out.append(dict(variant=v, label="kernels", seed=int(r.integers(1 << 31)), n=6 if tier == "quick" else 30))
    return out

def one(r, N, kind):
    I = np.eye(N, dtype=complex)
    z = r.standard_normal((N, N)) + 1j * r.standard_normal((N, N))
    if kind == "general": return z
    if kind == "scaled": return z * 10.0 ** r.integers(-6, 7)
    if kind == "perm": return I[r.permutation(N)] * np.exp(1j * r.standard_normal(N))[:, None] * (1 + r.random(N))[:, None]
    if kind == "zerolead":
        z[0, 0] = 0
        if N > 2: z[1, 1] = z[0, 1] * z[1, 0] * 0
        return z
    if kind == "neardiag": return I + 0.01 * z
    if kind == "haar": return ref.haar(r, 1, N)[0]
    if kind == "smooth": return ref.near_unit(r, 1, N, 10.0 ** -r.integers(1, 9))[0]
    if kind == "center": return I * np.exp(2j * np.pi * r.integers(0, N) / N)
    if kind == "unitmat": return I
    if kind == "diag":
        p = r.standard_normal(N); p -= p.mean(); return np.diag(np.exp(1j * p))
    if kind == "permsu":
        m = I[r.permutation(N)]; return m / (np.linalg.det(m) + 0j) ** (1.0 / N)
    raise KeyError(kind)

def hermtl(r, N, kind):
    z = r.standard_normal((N, N)) + 1j * r.standard_normal((N, N)); h = (z + z.conj().T) / 2
    if kind in ("center", "diag", "permsu"): h = np.diag(np.diag(h))
    if kind == "unitmat": h = h * 0
    if kind == "zerolead": h[0, 0] = 0
    if kind in ("smooth", "scaled"): h = h * 10.0 ** r.integers(-8, 4)
    h[N - 1, N - 1] = -sum(h[i, i] for i in range(N - 1))
    return h

def pack(h): return np.concatenate([h[i, i:] for i in range(len(h) - 1)])

def run(c, g):
    R = Report(); r = rng_of(c["seed"]); N = g.NC
    g.setup([2] * g.ND, 1); S = g.shim("mat")
    S.z_mat.argtypes = [c_char_p, c_void_p, c_void_p, c_void_p, c_double, c_double, c_int, c_void_p]
    HS = S.z_herm(); S.z_lie(1)
    nm = np.linalg.norm
    def call(op, a, b=None, cc=None, s=0, n=0):
        f = lambda m: np.ascontiguousarray(np.zeros((N, N), complex) if m is None else m, dtype=complex)
        def full(m):
            m = f(m)
            if m.size != N * N:
                t = np.zeros(N * N, complex); t[:m.size] = m.ravel(); m = t
            return m
        A, B, C = full(a), full(b), full(cc); o = np.zeros(N * N + 2, complex)
        k = S.z_mat(op.encode(), P(A), P(B), P(C), complex(s).real, complex(s).imag, n, P(o))
        if k == -1: return None, None
        if k == -2: R.bad("inputs/" + op, "%s changed one of its inputs" % op); k = N * N
        return o[:k], o
    def t(op, kind, want, a, b=None, cc=None, s=0, n=0, scale=None, tol=1e-12):
        got, o = call(op, a, b, cc, s, n)
        if got is None: return
        want = np.atleast_1d(np.asarray(want, complex)).ravel()
        if len(got) > len(want): got = got[:len(want)]
        if scale is None:
            scale = 1.0
            for m in (a, b, cc):
                if m is not None and nm(m) > 0: scale *= nm(m)
        e = abs(got - want).max() if np.isfinite(got).all() else np.inf
        R.evals += 1
        if not e <= tol * scale:
            R.bad("kernel/%s/%s" % (op, kind), "%s %s on %s: got %s, expected %s" % (g.variant, op, kind, got[:9], want[:9]))
        R.ok("%s %s %s" % (op, g.variant, kind), 0)
    d = ref.dag
    for it in range(c["n"]):
      for kind in GENERAL + GROUP:
        a, b, e = one(r, N, kind), one(r, N, kind), one(r, N, kind)
        s = complex(r.standard_normal(), r.standard_normal())
        t("multab", kind, a @ b, a, b); t("multab_dag", kind, a @ d(b), a, b)
        t("multabdag", kind, d(a) @ b, a, b); t("multab_dagdag", kind, d(a) @ d(b), a, b)
        t("multab_atomic_left", kind, b @ a, a, b); t("multab_atomic_right", kind, a @ b, a, b)
        if kind in GROUP:
            t("multab_suNC", kind, a @ b, a, b); t("multab_dag_suNC", kind, a @ d(b), a, b)
            t("multabdag_suNC", kind, d(a) @ b, a, b); t("multab_dagdag_suNC", kind, d(a) @ d(b), a, b)
            t("Re_trace_abc_dag_suNC", kind, ref.tr(a @ b @ d(e)).real, a, b, e)
        sm = max(nm(a), nm(b), 1) * max(1, abs(s))
        t("add_constant", kind, a + s * np.eye(N), a, s=s, scale=sm)
        t("a_plus_b", kind, a + b, a, b, scale=sm); t("a_plus_CSxb", kind, a + s * b, a, b, s=s, scale=sm)
        t("a_plus_Sxb", kind, a + s.real * b, a, b, s=s, scale=sm)
        t("b_min_c", kind, b - e, a, b, e, scale=max(nm(b), nm(e)))
        dt = np.linalg.det(a)
        t("dagger", kind, d(a), a); t("transpose", kind, a.T, a); t("equiv", kind, a, a)
        t("det", kind, dt, a, scale=nm(a) ** N); t("speed_det", kind, dt, a, scale=nm(a) ** N)
        for n in range(1, N + 1):
            m = np.zeros(N * N, complex); m[:n * n] = a.ravel()[:n * n]
            w = np.linalg.det(m[:n * n].reshape(n, n))
            if n > 1 and N > 3:
                t("LU_det", kind, w, m, n=n, scale=nm(a) ** n); t("LU_det_overwrite", kind, w, m, n=n, scale=nm(a) ** n)
        t("M_times_c", kind, a * s, a, s=s, scale=sm)
        k = int(r.integers(0, 12)); t("matrix_power", kind, np.linalg.matrix_power(a, k), a, n=k, scale=nm(a) ** k)
        va, vb = a.ravel()[:N], b.ravel()[:N]
        t("mat_mult_vec", kind, a @ vb, a, vb); t("outerproduct", kind, np.outer(va, vb.conj()), va, vb)
        t("diag", kind, s * np.eye(N), a, s=s, scale=abs(s)); t("diag_vect", kind, np.diag(va), va, scale=max(nm(va), 1))
        t("identity", kind, np.eye(N), a, scale=1); t("zero_mat", kind, np.zeros((N, N)), a, scale=1)
        t("trace", kind, ref.tr(a), a); t("speed_trace", kind, ref.tr(a), a); t("speed_trace_Re", kind, ref.tr(a).real, a)
        t("trace_ab", kind, ref.tr(a @ b), a, b); t("trace_ab_dag", kind, ref.tr(a @ d(b)), a, b)
        t("trace_ab_dag_Re", kind, ref.tr(a @ d(b)).real, a, b)
        t("trace_abc", kind, ref.tr(a @ b @ e), a, b, e); t("trace_abc_dag", kind, ref.tr(a @ b @ d(e)), a, b, e)
        t("trace_abc_dag_Re", kind, ref.tr(a @ b @ d(e)).real, a, b, e)
        # hermitian traceless
        h, f, q = (hermtl(r, N, kind) for _ in range(3))
        t("trace_ab_herm", kind, ref.tr(h @ f).real, h, f, scale=max(nm(h) * nm(f), 1e-300))
        t("trace_prod_herm", kind, ref.tr(h @ h).real, h, scale=max(nm(h) ** 2, 1e-300))
        ph, pf, pq = pack(h), pack(f), pack(q)
        t("pack_hermitian", kind, ph, h, scale=max(nm(h), 1e-300)); t("rebuild_hermitian", kind, h, ph, scale=max(nm(h), 1e-300))
        t("rebuild_antihermitian", kind, 1j * h, 1j * ph, scale=max(nm(h), 1e-300))
        t("trace_ab_herm_short", kind, ref.tr(h @ f).real, ph, pf, scale=max(nm(h) * nm(f), 1e-300))
        t("a_plus_Sxbminc_short", kind, ph + s.real * (pf - pq), ph, pf, pq, s=s, scale=sm + nm(h) + nm(f) + nm(q))
        # contraction with the structure constants, hermitian and complexified traceless arguments
        for x, y, z in ((h, f, q), (h + 1j * f, f + 2j * q, q - 1j * h)):
            sc = max(nm(x) * nm(y) * nm(z), 1e-300) * 10
            t("ifabc", kind, 2 * ref.tr((x @ y - y @ x) @ z), x, y, z, scale=sc)
            if N > 2: t("dabc", kind, 2 * ref.tr((x @ y + y @ x) @ z), x, y, z, scale=sc)
            t("ifabc_dabc", kind, 4 * ref.tr(x @ y @ z), x, y, z, scale=sc)
        cond = np.linalg.cond(a)
        if cond < 1e6:
            inv = np.linalg.inv(a)
            got, o = call("inverse", a)
            t("inverse", kind, inv, a, scale=cond * nm(inv) * 10)
            if o is not None and o[N * N].real != 1: R.bad("inverse/flag", "regular matrix reported singular")
            adj, o = call("cofactor_transpose", a)
            t("cofactor_transpose", kind, dt * inv, a, scale=nm(a) ** (N - 1) * 10)
            if abs(o[N * N] - dt) > 1e-12 * nm(a) ** N: R.bad("cofactor/det", "%s: determinant %s instead of %s" % (kind, o[N * N], dt))
        # predicates
        with Capture(g.B):
            if kind in GROUP:
                u, _ = call("is_unitary", a)
                if u[0].real != 1: R.bad("predicate/unitary", "special unitary matrix %s reported as not unitary" % kind)
                bad = a.copy(); i, j = r.integers(0, N, 2); bad[i, j] += (1e-8 if r.random() < 0.5 else 1e-3) * np.exp(1j * r.random() * 6)
                if abs(bad @ d(bad) - np.eye(N)).max() > 1e-11:
                    u, _ = call("is_unitary", bad)
                    if u[0].real != 0: R.bad("predicate/unitary", "a matrix off unitarity by %g reported as unitary" % abs(bad @ d(bad) - np.eye(N)).max())
                nan = a.copy(); nan[i, j] = complex(np.nan, 0) if r.random() < 0.5 else complex(0, np.nan)
                u, _ = call("is_unitary", nan)
                if u[0].real != 0: R.bad("predicate/unitary", "a matrix with a NaN reported as unitary")
                R.evals += 3
            if N > 2:   # exactly singular: a zero row
                z = a.copy(); z[int(r.integers(0, N))] = 0
                got, o = call("inverse", z)
                if o[N * N].real == 1 and np.isfinite(got).all():
                    R.bad("inverse/singular", "a singular matrix was inverted without complaint")
    S.z_lie(0)
    return R.out()
