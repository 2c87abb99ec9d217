"""References for the update checks: analytic heat-bath distribution and
plaquettes from an independent Metropolis program (tools/metropolis.c)."""
import numpy as np
# (NC, ND, improved, beta, extents) -> average Re tr P/N, error
METROPOLIS = {
    (2, 4, 0, 2.2, (2, 2, 2, 2)): (0.61662574, 4.98e-05),
    (3, 4, 0, 5.5, (2, 2, 2, 3)): (0.56154328, 8.01e-05),
    (4, 4, 0, 10.5, (2, 2, 2, 2)): (0.57355918, 9.80e-05),
    (3, 4, 0, 5.7, (3, 3, 3, 3)): (0.56757177, 1.53e-04),
    (5, 3, 0, 15.0, (2, 2, 2)): (0.33533170, 6.48e-05),
    (2, 3, 0, 4.0, (3, 2, 2)): (0.74383831, 5.32e-05),
    (3, 3, 0, 10.0, (2, 3, 2)): (0.71747392, 4.39e-05),
    (2, 4, 0, 0.1, (2, 2, 2, 2)): (0.02495091, 6.99e-05),
    (2, 4, 0, 6.0, (2, 2, 2, 2)): (0.87394594, 1.90e-05),
    (3, 4, 1, 4.3, (4, 4, 4, 4)): (0.61554892, 1.29e-04),
    (3, 4, 0, 1.0, (2, 3, 2, 2)): (0.06013943, 4.24e-05),
    (2, 4, 0, 1.0, (3, 2, 2, 3)): (0.24399386, 3.66e-05),
}
_x, _w = np.polynomial.legendre.leggauss(120)

def a0_cdf(a0, kap):
    """P(a < a0) for density sqrt(1-a^2) exp(kap a) on [-1,1]"""
    th = np.arccos(np.clip(a0, -1, 1)); kap = np.asarray(kap, float)
    cut = np.minimum(np.pi, 14 / np.sqrt(np.maximum(kap, 1e-300)))
    def integ(lo, hi):
        m, h = (lo + hi) / 2, (hi - lo) / 2
        t = m[:, None] + h[:, None] * _x[None]
        return (np.sin(t) ** 2 * np.exp(-2 * kap[:, None] * np.sin(t / 2) ** 2) * _w[None]).sum(1) * h
    lo = np.minimum(th, cut)
    lower = integ(np.zeros_like(lo), lo); upper = integ(lo, cut)
    return upper / (lower + upper)       # P(theta' > theta) = P(a < a0)

def ks_p(u):
    """p-value of the two-sided Kolmogorov-Smirnov test against uniform"""
    u = np.sort(u); n = len(u); i = np.arange(1, n + 1)
    d = max((i / n - u).max(), (u - (i - 1) / n).max())
    t = d * (np.sqrt(n) + 0.12 + 0.11 / np.sqrt(n))
    k = np.arange(1, 101)
    p = 2 * np.sum((-1.0) ** (k - 1) * np.exp(-2 * k ** 2 * t * t)) if t > 0.3 else 1.0
    return float(min(1, max(p, 0))), d

def corr_p(a, b):
    """two-sided normal p-value of the correlation of two independent samples"""
    from math import erfc, sqrt
    c = np.corrcoef(a, b)[0, 1]
    return erfc(abs(c) * sqrt(len(a)) / sqrt(2)) if np.isfinite(c) else 1.0
