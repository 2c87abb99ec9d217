"""Reference lattice gauge theory in numpy, written from the definitions and
independent of GLU's sources. U[V, ND, N, N]; site index lexicographic with
the first dimension fastest."""
import numpy as np

def dag(a): return np.conj(np.swapaxes(a, -1, -2))
def tr(a): return np.trace(a, axis1=-2, axis2=-1)

class Lattice:
    def __init__(self, dims):
        self.dims = list(dims); self.ND = len(dims); self.V = int(np.prod(dims))
        i = np.arange(self.V)
        self.x = []
        r = i.copy()
        for L in dims:
            self.x.append(r % L); r //= L
        self.x = np.array(self.x)              # [ND, V]
        self.fw = [self.index_shift(mu, 1) for mu in range(self.ND)]
        self.bw = [self.index_shift(mu, -1) for mu in range(self.ND)]
    def index(self, x):
        s, m = 0, 1
        for mu, L in enumerate(self.dims):
            s = s + (x[mu] % L) * m; m *= L
        return s
    def index_shift(self, mu, k):
        y = self.x.copy(); y[mu] = y[mu] + k
        return self.index(y)

def haar(rng, n, N):
    z = rng.standard_normal((n, N, N)) + 1j * rng.standard_normal((n, N, N))
    q, r = np.linalg.qr(z)
    d = np.diagonal(r, axis1=-2, axis2=-1)
    q = q * (d / abs(d))[:, None, :]
    return q / (np.linalg.det(q) ** (1.0 / N))[:, None, None]

def herm(rng, n, N, eps):
    z = rng.standard_normal((n, N, N)) + 1j * rng.standard_normal((n, N, N))
    h = 0.5 * (z + dag(z))
    h -= (tr(h) / N)[:, None, None] * np.eye(N)
    return eps * h

def expih(h):
    """exp(i h) for Hermitian h"""
    w, v = np.linalg.eigh(h)
    return (v * np.exp(1j * w)[..., None, :]) @ dag(v)

def near_unit(rng, n, N, eps):
    return expih(herm(rng, n, N, eps))

def field(rng, dims, N, kind):
    ND = len(dims); V = int(np.prod(dims)); n = V * ND
    if kind == "unit": U = np.tile(np.eye(N, dtype=complex), (n, 1, 1))
    elif kind == "hot": U = haar(rng, n, N)
    elif kind == "warm": U = near_unit(rng, n, N, 0.3)
    elif kind == "smooth": U = near_unit(rng, n, N, 0.05)
    elif kind == "gaugeunit":
        lat = Lattice(dims); g = haar(rng, V, N)
        U = np.tile(np.eye(N, dtype=complex), (V, ND, 1, 1))
        return transform(lat, U, g)
    elif kind == "diag":   # abelian
        ph = rng.standard_normal((n, N)); ph -= ph.mean(axis=1, keepdims=True)
        U = np.zeros((n, N, N), complex); U[:, range(N), range(N)] = np.exp(1j * ph)
    elif kind == "center":
        z = np.exp(2j * np.pi * rng.integers(0, N, n) / N)
        U = z[:, None, None] * np.eye(N)
    else: raise KeyError(kind)
    return U.reshape(V, ND, N, N)

def transform(lat, U, g):
    out = np.empty_like(U)
    for mu in range(lat.ND):
        out[:, mu] = g @ U[:, mu] @ dag(g[lat.fw[mu]])
    return out

def project_su(M):
    """nearest unitary matrix (polar) with its determinant's phase removed"""
    u, s, vh = np.linalg.svd(M)
    w = u @ vh
    N = M.shape[-1]
    return w / (np.linalg.det(w) ** (1.0 / N))[..., None, None]

def su_defect(U):
    """(largest unitarity defect, largest |det-1|); NaN counts as infinite"""
    N = U.shape[-1]
    a = abs(U @ dag(U) - np.eye(N)).max()
    b = abs(np.linalg.det(U) - 1).max()
    a = float("inf") if not np.isfinite(a) else float(a)
    b = float("inf") if not np.isfinite(b) else float(b)
    return a, b

def plaq_field(lat, U, mu, nu):
    return U[:, mu] @ U[lat.fw[mu], nu] @ dag(U[lat.fw[nu], mu]) @ dag(U[:, nu])

def plaquettes(lat, U):
    """(all, spatial, temporal) averages of Re tr P / N"""
    N = U.shape[-1]; ND = lat.ND; sp, te = [], []
    for mu in range(ND):
        for nu in range(mu):
            v = tr(plaq_field(lat, U, mu, nu)).real.mean() / N
            (te if mu == ND - 1 else sp).append(v)
    return (float(np.mean(sp + te)), float(np.mean(sp)) if sp else 0.0, float(np.mean(te)))

def plaq_traces(lat, U):
    """trace of every plaquette"""
    return np.array([tr(plaq_field(lat, U, mu, nu)) for mu in range(lat.ND) for nu in range(mu)])

def link_traces(lat, U):
    N = U.shape[-1]
    t = tr(U).real / N
    return (float(t.mean()), float(t[:, :-1].mean()), float(t[:, -1].mean()))

def polyakov(lat, U, mu):
    """sum over the transverse sites of tr of the ordered product along mu"""
    N = U.shape[-1]
    start = np.nonzero(lat.x[mu] == 0)[0]
    P = np.tile(np.eye(N, dtype=complex), (len(start), 1, 1)); i = start
    for _ in range(lat.dims[mu]):
        P = P @ U[i, mu]; i = lat.fw[mu][i]
    return tr(P)           # per transverse site

def staple_sum(lat, U, mu, nus, up_first=False):
    """sum of the 2*len(nus) staples parallel to U_mu(x) from x to x+mu"""
    S = np.zeros_like(U[:, 0])
    for nu in nus:
        if nu == mu: continue
        S = S + U[:, nu] @ U[lat.fw[nu], mu] @ dag(U[lat.fw[mu], nu])
        b = lat.bw[nu]
        S = S + dag(U[b, nu]) @ U[b, mu] @ U[lat.fw[mu][b], nu]
    return S

def ta(M):
    """traceless Hermitian part of (M - M^dag)/2i"""
    N = M.shape[-1]
    A = (M - dag(M)) / 2j
    return A - (tr(A) / N)[..., None, None] * np.eye(N)

def log_su(U):
    """principal Hermitian logarithm, U = exp(i A) (trace kept as is)"""
    w, v = np.linalg.eig(U)
    # unitary: eigenvectors made orthonormal through the Schur form when needed
    from scipy.linalg import schur
    out = np.empty_like(U)
    sh = U.shape
    f = U.reshape(-1, sh[-1], sh[-1]); o = out.reshape(f.shape)
    for i in range(len(f)):
        T, Z = schur(f[i], output="complex")
        o[i] = Z @ np.diag(np.angle(np.diag(T))) @ dag(Z)
    return o.reshape(sh)

def path(lat, U, steps):
    """ordered product along steps (+-(mu+1)) starting at every site"""
    N = U.shape[-1]
    P = np.tile(np.eye(N, dtype=complex), (lat.V, 1, 1)); at = np.arange(lat.V)
    for s in steps:
        mu = abs(s) - 1
        if s > 0: P = P @ U[at, mu]; at = lat.fw[mu][at]
        else: at = lat.bw[mu][at]; P = P @ dag(U[at, mu])
    return P

def leaves(lat, U, mu, nu, m=1, n=1):
    """sum of the four equally oriented m x n loops touching x"""
    M, Nn = (mu + 1), (nu + 1)
    def rect(a, k, b, l): return path(lat, U, [a] * k + [b] * l + [-a] * k + [-b] * l)
    return (rect(M, m, Nn, n) + rect(Nn, n, -M, m) + rect(-M, m, -Nn, n) + rect(-Nn, n, M, m))

def clover(lat, U, mu, nu, improve=False, k5=0.0):
    """traceless Hermitian field strength times 4"""
    if not improve: return ta(leaves(lat, U, mu, nu))
    k1, k2, k3, k4 = 19/9 - 55*k5, 1/36 - 16*k5, 64*k5 - 32/45, 1/15 - 6*k5
    C = k1 * leaves(lat, U, mu, nu) + k2 * leaves(lat, U, mu, nu, 2, 2)
    C = C + k3 * 0.5 * (leaves(lat, U, mu, nu, 1, 2) + leaves(lat, U, mu, nu, 2, 1))
    C = C + k4 * 0.5 * (leaves(lat, U, mu, nu, 1, 3) + leaves(lat, U, mu, nu, 3, 1))
    if k5: C = C + k5 * leaves(lat, U, mu, nu, 3, 3)
    return ta(C)

def gmunu(lat, U, improve=False, k5=0.0):
    """(sum over planes and sites of tr F^2, charge density field summed over
    the three dual pairs), with F four times the field strength"""
    F = {}
    for mu in range(4):
        for nu in range(mu):
            F[mu, nu] = clover(lat, U, mu, nu, improve, k5); F[nu, mu] = -F[mu, nu]
    GG = sum(tr(F[p] @ F[p]).real.sum() for p in F if p[0] > p[1])
    q = tr(F[0, 1] @ F[2, 3] - F[0, 2] @ F[1, 3] + F[0, 3] @ F[1, 2]).real
    return float(GG), q      # charge = sum(q)/(64 pi^2)
