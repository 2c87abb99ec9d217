"""Reference smearing transforms and gradient flow, from their publications."""
import numpy as np
import ref
from ref import dag, tr

def log_traceless(U):
    """principal Hermitian logarithm of special unitary matrices (vectorised)"""
    h = 0.5 * (U + dag(U)) * 0.813 + (U - dag(U)) / 2j * 1.0
    _, v = np.linalg.eigh(h)
    d = np.diagonal(dag(v) @ U @ v, axis1=-2, axis2=-1)
    a = np.angle(d)
    return (v * a[..., None, :]) @ dag(v)

def max_phase(U):
    return float(abs(np.angle(np.linalg.eigvals(U))).max())

def maximal(M):
    """the special unitary W maximising Re tr(W M^dag)"""
    u, s, vh = np.linalg.svd(M)
    n = M.shape[-1]
    delta = -np.angle(np.linalg.det(u @ vh))          # sum of the phases
    out = np.empty(s.shape)
    lo = -s[..., -1] * np.ones_like(delta); hi = -lo
    # s_i sin(th_i) = lam with th_i in [-pi/2, pi/2]: monotone in lam
    f = lambda lam: np.arcsin(np.clip(lam[..., None] / np.maximum(s, 1e-300), -1, 1)).sum(-1) - delta
    for _ in range(200):
        mid = 0.5 * (lo + hi); g = f(mid) > 0
        hi = np.where(g, mid, hi); lo = np.where(g, lo, mid)
    lam = 0.5 * (lo + hi)
    th = np.arcsin(np.clip(lam[..., None] / np.maximum(s, 1e-300), -1, 1))
    # the interior branch only reaches delta when the smallest s allows it
    ok = abs(th.sum(-1) - delta) < 1e-9
    return (u * np.exp(1j * th)[..., None, :]) @ vh, ok

# weights of the plaquette and rectangle staples of the improved actions
RECT = {"nc3symanzik": (5 / 3, -1 / 12), "nc5nd3symanzik": (5 / 3, -1 / 12), "nc2iwasaki": (3.648, -0.331), "nc4dbw2": (12.2536, -1.4069)}

class Smear:
    def __init__(self, lat, U, typ, alphas, dirs, proj=None, rect=None):
        """proj: projection onto the group used for APE; rect: (c0, c1)
        weights of the plaquette and rectangle staples"""
        self.l, self.U, self.typ, self.alphas, self.dirs = lat, U, typ, alphas, dirs
        self.cache = {}; self.phase = 0.0; self.proj = proj; self.rect = rect
    def project(self, S, rho, a, w):
        """a: mixing parameter, w: weight of the staple sum"""
        U = self.U[:, rho]
        if self.typ == "APE": return self.proj((1 - a) * U + w * S)
        if self.typ == "STOUT": return ref.expih(w * ref.ta(S @ dag(U))) @ U
        return ref.expih(w * S) @ U
    def add(self, S, T, rho):
        if self.typ == "LOG":
            X = T @ dag(self.U[:, rho]); self.phase = max(self.phase, max_phase(X))
            return S + log_traceless(X)
        return S + T
    def V(self, lev, rho, excl):
        key = (lev, rho, frozenset(excl))
        if key in self.cache: return self.cache[key]
        l, U = self.l, self.U
        S = np.zeros_like(U[:, 0])
        for j in range(self.dirs):
            if j == rho or j in excl: continue
            if lev == 1: A, B = U[:, j], U[:, rho]
            else: A, B = self.V(lev - 1, j, excl | {rho}), self.V(lev - 1, rho, excl | {j})
            S = self.add(S, A @ B[l.fw[j]] @ dag(A[l.fw[rho]]), rho)
            b = l.bw[j]
            S = self.add(S, dag(A[b]) @ B[b] @ A[l.fw[rho][b]], rho)
        if self.rect is not None:
            T = np.zeros_like(S); m = rho + 1
            for j in range(self.dirs):
                if j == rho: continue
                n = j + 1
                for st in ([n, n, m, -n, -n], [-n, -n, m, n, n], [n, m, m, -n, -m], [-n, m, m, n, -m],
                           [-m, n, m, m, -n], [-m, -n, m, m, n]):
                    T = self.add(T, ref.path(l, U, st), rho)
            S = self.rect[0] * S + self.rect[1] * T
        k = len(excl); ND = l.ND
        a = self.alphas[k]; w = a / ((ND - k - 1) * (ND - 2))
        r = self.project(S, rho, a, w)
        self.cache[key] = r
        return r

def step(lat, U, typ, alphas, dirs, hyper, proj=None, rect=None):
    """one smearing step; -> field, largest eigenphase of a logarithm's argument"""
    s = Smear(lat, U, typ, alphas, dirs, proj, rect)
    out = U.copy()
    lev = dirs - 1 if hyper else 1
    for rho in range(dirs): out[:, rho] = s.V(lev, rho, frozenset())
    return out, s.phase

def flow_force(lat, U, typ, rect=None):
    s = Smear(lat, U, typ, [0] * lat.ND, lat.ND, rect=rect)
    Z = np.empty_like(U)
    s.project = lambda S, rho, a, w: S
    for mu in range(lat.ND):
        S = s.V(1, mu, frozenset())
        Z[:, mu] = S if typ == "LOG" else ref.ta(S @ dag(U[:, mu]))
    return Z

def rk3(lat, U, eps, typ="STOUT", rect=None):
    """Luescher's third order step of dU/dt = i Z(U) U"""
    Z0 = flow_force(lat, U, typ, rect)
    W1 = ref.expih(0.25 * eps * Z0) @ U
    Z1 = flow_force(lat, W1, typ, rect)
    W2 = ref.expih(eps * (8 / 9 * Z1 - 17 / 36 * Z0)) @ W1
    Z2 = flow_force(lat, W2, typ, rect)
    return ref.expih(eps * (0.75 * Z2 - 8 / 9 * Z1 + 17 / 36 * Z0)) @ W2
