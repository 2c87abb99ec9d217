import random
import numpy as np

def rng_of(*key):
    return np.random.default_rng(np.random.SeedSequence(
        [int(k) if isinstance(k, (int, np.integer)) else int.from_bytes(str(k).encode(), "little") % (1 << 60)
         for k in key]))

class Report:
    def __init__(self):
        self.evals = 0; self.sigs = []; self.fail = []; self.obs = {}
    def bad(self, key, text):
        if len(self.fail) < 40: self.fail.append([key, str(text)[:3000]])
    def ok(self, sig=None, n=1):
        self.evals += n
        if sig is not None: self.sigs.append(str(sig))
    def near(self, key, got, want, tol, ctx="", scale=None):
        """|got-want| <= tol*(1+|want|) elementwise maximum; records the worst"""
        g, w = np.asarray(got), np.asarray(want)
        self.evals += 1
        if g.shape != w.shape:
            self.bad(key, "shape %s instead of %s %s" % (g.shape, w.shape, ctx)); return False
        if g.size == 0: return True
        s = 1.0 + (abs(w).max() if scale is None else scale)
        d = abs(g - w)
        m = float(d.max()) / float(s) if np.isfinite(d).all() else float("inf")
        ok = m <= tol
        k = "max_err " + key.split("/")[0]
        self.obs[k] = max(self.obs.get(k, 0.0), m if ok else 0.0)
        if not ok:
            j = np.unravel_index(int(np.nanargmax(np.where(np.isfinite(d), d, np.inf))), d.shape) if d.shape else ()
            self.bad(key, "%s: got %r, expected %r at %s (relative difference %.3g, allowed %.1g)"
                     % (ctx, g[j], w[j], tuple(int(a) for a in j), m, tol))
        return ok
    def out(self):
        return {"evals": self.evals, "sigs": sorted(set(self.sigs)), "fail": self.fail, "obs": self.obs}

def dims_of(r, ND, lo=2, hi=6, maxvol=1500, even=False, stretch=0.25):
    """random extents; now and then one axis, the time axis by preference, is longer than hi"""
    def draw(fixed=()):
        d = [int(r.integers(lo, hi + 1)) for _ in range(ND)]
        for a, x in fixed: d[a] = x
        return [x + (x & 1) for x in d] if even else d
    if stretch and r.random() < stretch:
        a = ND - 1 if r.random() < 0.5 else int(r.integers(ND)); x = hi + 1 + int(r.integers(5))
        for _ in range(60):
            d = draw([(a, x)])
            if np.prod(d) <= maxvol: return d
    while True:
        d = draw()
        if np.prod(d) <= maxvol: return d

def big_dims(r, ND, lo=66000, hi=90000, even=False):
    """extents with more sites than sixteen bits can count (or any other range)"""
    m = lo ** (1.0 / ND)
    while True:
        d = [max(2, int(round(m * x))) for x in r.uniform(0.6, 1.6, ND)]
        if even: d = [x + (x & 1) for x in d]
        if lo <= np.prod(d) <= hi: return d

NCND = {"nc3": (3, 4), "nc2": (2, 4), "nc4": (4, 4), "nc5nd3": (5, 3), "nc4gsl": (4, 4),
        "nc3nofft": (3, 4), "nc3nosse": (3, 4), "nc2nofft": (2, 4), "nc2nosse": (2, 4),
        "nc4nosse": (4, 4), "nc5": (5, 4), "nc3nd3": (3, 3), "nc2nd3": (2, 3),
        "nc3gsl": (3, 4), "nc6": (6, 4), "nc3clover": (3, 4), "nc3luxury": (3, 4),
        "nc3sd": (3, 4), "nc3kiss": (3, 4), "nc3symanzik": (3, 4)}
def ncnd(variant):
    v = variant.replace("_san", "").replace("_tsan", "")
    import build
    b = build.VARIANTS[v]
    return b["NC"], b["ND"]

import re as _re
_DATE = _re.compile(rb"[A-Z][a-z]{2} [A-Z][a-z]{2} [ \d]\d \d\d:\d\d:\d\d \d{4}( GMT)?")
def undate(b):
    """the bytes of a configuration file without the dates that its header mentions"""
    return _DATE.sub(b"", b)
