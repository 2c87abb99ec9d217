"""Gradient flow of the real library against an independent Runge-Kutta
integration in numpy; every printed row against the field at that time."""
import ctypes, re
import numpy as np
from common import *
import ref, rsmear
from glu import Capture, P
PROP = "S03"; LEVEL = "exploration"
RULE = ("fixed-step (full and memory-saving) and adaptive flows x stout/log x colour count, dimension, vector instructions and improved action, "
        "random extents, step sizes, step counts, threads; runs that overshoot the stopping time; runs that bracket the t0 and w0 scales; "
        "every printed row is one observation; distinct by variant, kind of run, transform, extents and step count")
ASSUMPTIONS = ["printed rows are compared to their printed precision of six digits",
               "the adaptive run is compared at the level of its own error target",
               "logarithmic flows are compared on fields whose plaquette phases stay below 2.8",
               "action density and charge rows are judged in four dimensions only, where they are defined"]
MIN_SIGS = 45
VAR = ["nc3", "nc2", "nc4", "nc5nd3", "nc3nosse", "nc3symanzik", "nc2iwasaki", "nc4dbw2", "nc5nd3symanzik", "nc2nd3", "nc3meas", "nc2timeonly"]
RECT = rsmear.RECT
BUILDS = VAR
# when a flow stops, from when on it is measured
STOP = {"nc3meas": 1.1, "nc2timeonly": 0.8}; START = {"nc3meas": 0.3}

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; q = tier == "quick"
    def add(v, what, **k):
        out.append(dict(variant=v, label="%s/%s" % (what, k["type"]), what=what, seed=int(r.integers(1 << 31)),
                        threads=int(r.integers(1, 9)), **k))
    for v in VAR:
        ND = ncnd(v)[1]
        for t in ("STOUT", "LOG"):
            for mc in (0, 1):
                for _ in range(1 if q else 6):
                    lo = 3 if v in RECT and mc else 2
                    d = dims_of(r, ND, 2, 4, 80); d[-1] = max(d[-1], lo)
                    add(v, "fixed", type=t, mem=mc, dims=d, steps=int(r.integers(1, 5)), eps=float(r.uniform(0.01, 0.12)) / (1 if v not in RECT else RECT[v][0]),
                        kind=["warm", "hot", "smooth"][int(r.integers(3))])
    for v in ("nc3meas", "nc2timeonly"):
        for t in ("STOUT", "LOG"):
            for mc in (0, 1):
                for _ in range(2 if q else 8):
                    add(v, "timestop", type=t, mem=mc, dims=dims_of(r, 4, 2, 4, 60), steps=400, eps=float(r.uniform(0.03, 0.11)), kind=["warm", "hot", "smooth"][int(r.integers(3))])
            add(v, "adaptstop", type=t, mem=0, dims=dims_of(r, 4, 2, 3, 36), steps=2000, eps=float(r.uniform(0.01, 0.05)), kind="warm")
    for v in ("nc3", "nc2"):
        for mc in (0, 1): add(v, "fixed", type="STOUT", mem=mc, dims=big_dims(r, 4, 2500, 4000), steps=2, eps=0.05, kind="warm")
        for mc in (0, 1):
            for _ in range(1 if q else 4):
                add(v, "timestop", type="STOUT", mem=mc, dims=dims_of(r, 4, 2, 3, 24), steps=400, eps=float(r.uniform(0.085, 0.13)), kind="smooth")
    for k in range(4 if q else 40): add("nc3" if k % 2 else "nc2", "spline", type="any", mem=0, dims=[2, 2, 2, 2], steps=0, eps=0.0, kind="any")
    for v in ("nc3", "nc2", "nc3nosse", "nc2nd3"):
        for t in ("STOUT", "LOG"):
            for _ in range(1 if q else 4):
                add(v, "adaptive", type=t, mem=0, dims=dims_of(r, ncnd(v)[1], 2, 3, 36), steps=int(r.integers(2, 5)),
                    eps=float(r.uniform(0.01, 0.05)), kind="warm")
    for v in ("nc3", "nc2"):
        add(v, "adaptstop", type="STOUT", mem=0, dims=[2, 2, 2, 2], steps=2000, eps=0.05, kind="smooth")
        for m in ("scale", "adaptscale", "scalecut"):
            for _ in range((3 if m == "scalecut" else 1) if q else 5):
                add(v, m, type="STOUT", mem=int(r.integers(2)), dims=dims_of(r, 4, 3, 4, 200), steps=2000,
                    eps=float(r.uniform(0.03, 0.05)) / (3 if m == "scalecut" else 1), kind="warm2")
    return out

ROW = re.compile(r"\[WFLOW(?:-TSTOP)?\] \{err\} (\S+) \{t\} (\S+) \{dt\} (\S+) \{p\} (\S+) \{q\} (\S+) \{Gt\} (\S+) \{GtP\} (\S+)")
def rows(text):
    return [tuple(float(x) for x in m) for m in ROW.findall(text)]

def measure(lat, U, t):
    p = ref.plaquettes(lat, U)[0]
    GG, q = ref.gmunu(lat, U) if lat.ND == 4 else (0.0, np.zeros(1))
    return p, float(q.sum()) / (64 * np.pi ** 2), t * t * GG / (16 * lat.V), 32 * t * t * (1 - p)

def judge(R, key, row, m, ctx, rel=2e-5, nd4=True):
    for name, got, want in zip(("plaquette", "charge", "Gt", "GtP"), row[3:7], m):
        if not nd4 and name in ("charge", "Gt"):
            if not np.isfinite(got): R.bad("%s/%s" % (key, name), "%s: %r" % (ctx, got))
            continue
        s = 1.0 if name != "GtP" else 1.0 + 32 * row[1] ** 2
        # %g keeps six significant digits
        tol = rel * (abs(want) + (1e-3 if name != "GtP" else 1e-9)) + (32 * row[1] ** 2 * 2e-8 * rel / 2e-5 if name == "GtP" else 0)
        if name == "GtP": tol += 1e-10
        R.ok()
        if not abs(got - want) <= tol:
            R.bad("%s/%s" % (key, name), "%s: row at t=%g prints %s %r, the field at that time has %r" % (ctx, row[1], name, got, want))

def spline(c, g):
    # the interpolation behind the scales, on polynomials it must reproduce
    R = Report(); r = rng_of(c["seed"]); L = g.L; g.setup(c["dims"], c["threads"]); D = ctypes.c_double; Z = ctypes.c_size_t
    if not all(hasattr(L, f) for f in ("spline_derivative", "cubic_eval", "cubic_min", "solve_spline")):
        R.ok("spline by another name"); return R.out()
    for f in ("cubic_eval", "cubic_min", "solve_spline"): getattr(L, f).restype = D
    poly = np.polynomial.Polynomial
    for n in (3, 4, 5, 6, 7, 9, 30):
        for _ in range(30):
            x = np.cumsum(r.uniform(0.05, 0.4, n)) if n < 20 else np.cumsum(r.uniform(0.02, 0.04, n)); p = poly(r.normal(size=min(n - 1, 4) + 1)); y = p(x); d = np.zeros(n)
            L.spline_derivative(P(d), P(x), P(y), Z(n))
            R.near("spline/derivative", d, p.deriv()(x), 1e-8, "%d points x %s polynomial %s" % (n, x, p.coef), scale=1 + abs(p.deriv()(x)).max())
    for k in range(400):
        x = np.cumsum(r.uniform(0.05, 0.4, 4)); a = r.normal(size=4); a[2:] *= 10.0 ** -r.uniform(0, 18, 2) if k % 2 else 1.0; p = poly(a)
        if k % 4 == 0:       # a curve that bends between the points: its cubic has other, complex, zeros there
            u, v, w = r.uniform(x[0], x[-1], 2).tolist() + [r.uniform(0.02, 0.2)]; p = poly.fromroots([u]) * poly([v * v + w * w, -2 * v, 1]) * r.choice([-1, 1]) + r.normal()
        y = p(x); d = p.deriv()(x); ctx = "x %s polynomial %s" % (x.tolist(), p.coef.tolist())
        mu = r.uniform(x[0], x[-1]); R.near("spline/value", L.cubic_eval(P(x), P(y), P(d), D(mu), ctypes.c_int(4)), p(mu), 1e-12, ctx, scale=1 + abs(y).max())
        for j in (1, 2, 3):
            up = abs(y[j] - y[j - 1])
            if up > 1e-6:
                want = y[j - 1] + (y[j] - y[j - 1]) * r.uniform(0.01, 0.99); t = L.solve_spline(P(x), P(y), P(d), D(want), Z(j)); R.ok()
                if not x[j - 1] <= t <= x[j] or abs(p(t) - want) > 1e-8 * (1 + abs(y).max()):
                    R.bad("spline/solution", "%s: the curve is at %r at %r, not %r, between points %d and %d" % (ctx, p(t), t, want, j - 1, j))
            if d[j - 1] < -1e-2 and d[j] > 1e-2 and abs(p.coef[-1]) > 1e-3:
                t = L.cubic_min(P(x), P(y), P(d), Z(j)); R.ok()
                if not x[j - 1] <= t <= x[j] or abs(p.deriv()(t)) > 1e-7: R.bad("spline/minimum", "%s: slope %r at the minimum %r" % (ctx, p.deriv()(t), t))
    R.ok("spline %s %d" % (g.variant, c["seed"])); return R.out()

def run(c, g):
    if c["what"] == "spline": return spline(c, g)
    R = Report(); dims = c["dims"]; N, ND = g.NC, g.ND; r = rng_of(c["seed"])
    g.setup(dims, c["threads"]); S = g.shim("smear"); eps = c["eps"]; typ = c["type"]
    g.smalpha([eps] + [0.3] * (ND - 2))
    S.z_flow.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    S.z_adaptive.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int]
    lat = ref.Lattice(dims); rect = RECT.get(g.variant)
    if typ == "LOG": U = ref.near_unit(r, g.V * ND, N, 0.12).reshape(g.V, ND, N, N)
    elif c["kind"] == "warm2": U = ref.near_unit(r, g.V * ND, N, 0.7).reshape(g.V, ND, N, N)
    else: U = ref.field(r, dims, N, c["kind"])
    ctx = "%s %s dims %s %s eps %.4f steps %d mem %d threads %d" % (g.variant, c["label"], dims, c["kind"], eps, c["steps"], c["mem"], c["threads"])
    p = g.lat(U); code = {"STOUT": 2, "LOG": 3}[typ]
    if c["what"] == "scalecut":
        # run out of steps a little before the scales alone would end the flow
        with Capture(g.B) as cap: S.z_flow(p, 60, 1, code, c["mem"])
        first = rows(cap.text); n = max(9, len(first) - 3)
        if c["seed"] % 3:                    # or just when a scale is reached
            first = [x for x in first if x[2] > 0 or x[1] == 0]; t = np.array([x[1] for x in first])
            w = np.array([x[6 if c["seed"] % 3 == 1 else 5] for x in first]); w0 = 0.1125 * (N * N - 1) / N
            up = [i for i in range(1, len(w)) if w[i - 1] < w0 < w[i]]
            if up and up[0] > 4: n = up[0]
        c = dict(c, steps=n); g.set(p, U)
        ctx = ctx.replace("steps 2000", "steps %d" % c["steps"])
    with Capture(g.B) as cap:
        st = S.z_flow(p, c["steps"], 1, code, c["mem"]) if not c["what"].startswith("adapt") else S.z_adaptive(p, c["steps"], 1, code)
    if st != 0: R.bad("status/" + c["label"], "%s: returned %d\n%s" % (ctx, st, cap.text[-500:]))
    F = g.get(p); g.free(p); rw = rows(cap.text); K = c["label"]
    if not rw or rw[0][1] != 0: R.bad("rows/" + K, "%s: no measurement at zero flow time\n%s" % (ctx, cap.text[-500:])); return R.out()
    w0 = 0.1125 * (N * N - 1) / N * 1.5 if g.variant != "nc2timeonly" else np.inf
    TSTOP = STOP.get(g.variant, 20.0); tstart = START.get(g.variant, 0.0)
    def monotone():
        if typ == "STOUT" and rect is None:
            for a, b in zip(rw, rw[1:]):
                R.ok()
                if b[2] > 0 and b[3] < a[3] - 2e-6: R.bad("monotone/" + K, "%s: plaquette fell from %r to %r at t=%g" % (ctx, a[3], b[3], b[1]))
    nd4 = ND == 4
    if c["what"] in ("fixed", "timestop", "scale", "scalecut"):
        W = U; t = 0.0; k = 0; flow = 0.0; wap = 0.0; n = 1; before = True
        judge(R, "row/" + K, rw[0], measure(lat, W, 0.0), ctx, nd4=nd4)
        while True:
            k += 1; W = rsmear.rk3(lat, W, eps, typ, rect); t = k * eps
            m = measure(lat, W, t)
            if t >= tstart:
                if n >= len(rw):
                    R.bad("stop/" + K, "%s: stopped after %d steps, t=%g, w=%g" % (ctx, k - 1, t - eps, wap)); break
                if abs(rw[n][1] - t) > 2e-6: R.bad("time/" + K, "%s: step %d reported at t=%r" % (ctx, k, rw[n][1]))
                if c["what"] == "fixed" or k % 7 == 0 or n == len(rw) - 1 or t > TSTOP - 2 * eps: judge(R, "row/" + K, rw[n], m, ctx, nd4=nd4)
                n += 1
                if before: wap = (m[2] - flow) * t / eps    # a slope needs two neighbouring measurements
                flow = m[2]; before = True
            else: before = False
            if nd4 and abs(wap - w0) < 1e-4: return R.out()    # too close to the stopping rule to call
            if not ((wap < w0 or not nd4) and k < c["steps"] and t < TSTOP): break
        if t > TSTOP:
            W = rsmear.rk3(lat, W, TSTOP - t, typ, rect); m = measure(lat, W, TSTOP)
            if n >= len(rw): R.bad("stop/" + K, "%s: no row for the stopping time" % ctx)
            else:
                if abs(rw[n][1] - TSTOP) > 2e-6: R.bad("time/" + K, "%s: the field at the stopping time is reported at t=%r" % (ctx, rw[n][1]))
                judge(R, "row/" + K, rw[n], m, ctx, nd4=nd4)
            n += 1
        if len(rw) != n: R.bad("stop/" + K, "%s: %d rows, expected %d" % (ctx, len(rw), n))
        R.near("field/%s/%d" % (K, c["mem"]), F, W, 1e-9, ctx)
        R.near("group/%s" % K, max(ref.su_defect(F)), 0.0, 1e-9, ctx)
    else:
        # fine integration through the printed times
        W = U; t = 0.0; ts = [x[1] for x in rw]
        judge(R, "row/" + K, rw[0], measure(lat, W, 0.0), ctx, nd4=nd4)
        every = max(1, len(ts) // 12)
        for i, tt in enumerate(ts[1:], 1):
            dt = tt - t
            n = max(1, int(np.ceil(abs(dt) / (0.02 if tt < 2 else 0.04 if tt < 6 else 0.08))))
            for _ in range(n): W = rsmear.rk3(lat, W, dt / n, typ, rect)
            t = tt
            if i % every == 0 or i == len(ts) - 1: judge(R, "row/" + K, rw[i], measure(lat, W, t), ctx, rel=2e-3, nd4=nd4)
            if c["what"] == "adaptive" and not (i == len(ts) - 1) and rw[i][2] <= 0: R.bad("time/" + K, ctx + ": negative step")
        R.near("field/%s" % K, F, W, 3e-3, ctx)
        # time can only have reached or been stepped back to the stopping time
        if max(ts) > TSTOP and abs(ts[-1] - TSTOP) > 2e-6: R.bad("stop/" + K, "%s: ended at t=%r" % (ctx, ts[-1]))
        if tstart and len(ts) > 1 and ts[1] < tstart - 2e-6: R.bad("start/" + K, "%s: measured at t=%r" % (ctx, ts[1]))
        if c["what"] == "adaptive" and len(rw) != c["steps"] + 1 and wmax(rw) < w0 * 0.6: R.bad("stop/" + K, "%s: %d rows for %d steps" % (ctx, len(rw), c["steps"]))
        if c["what"] == "adaptstop" and abs(ts[-1] - TSTOP) > 2e-6 and wmax(rw) < w0: R.bad("stop/" + K, "%s: ended at %r" % (ctx, ts[-1]))
    monotone()
    if "scale" in c["what"]: scales(R, K, cap.text, rw, N, ctx)
    R.ok("%s %s %s %s %d %d" % (g.variant, K, dims, c["kind"], len(rw), c["mem"]))
    return R.out()

def wmax(rw):
    return max([0] + [(b[5] - a[5]) / (b[1] - a[1]) * b[1] for a, b in zip(rw, rw[1:]) if b[1] > a[1]])

def scales(R, K, text, rw, N, ctx):
    from scipy.interpolate import CubicSpline
    from scipy.optimize import brentq
    S = 0.1125 * (N * N - 1) / N
    stopped = rw[-1][2] < 0          # flowed to the stopping time: no scale is set
    rw = [x for x in rw if x[2] > 0 or x[1] == 0]
    t = np.array([x[1] for x in rw])
    for name, col in (("Clover", 5), ("Plaq", 6)):
        y = np.array([x[col] for x in rw]); f = CubicSpline(t, y); d = f.derivative(); w = t * d(t)
        for tag, h, v in (("GT", f, y), ("WT", lambda x: x * d(x), w)):
            cross = [i for i in range(1, len(v)) if v[i - 1] < S < v[i]]
            m = re.search(r"\[%s-scale %s\] [GW]\(\S+\) (\S+)" % (tag, name), text)
            edge = abs(v - S).min() < 2e-3 * S
            if m and not edge:
                got = float(m.group(1)) ** 2
                R.ok()
                if not any(t[i - 1] - 1e-3 <= got <= t[i] + 1e-3 for i in cross) or abs(float(h(got)) - S) > (0.002 if tag == "GT" else 0.01) * S:
                    R.bad("scale/%s" % K, "%s: %s-scale %s printed at t=%g where the curve is %g, not %g" % (ctx, tag, name, got, float(h(got)), S))
                R.ok("scale %s %s %s %.4f" % (K, tag, name, got))
            elif not m and tag == "WT" and "[GT-scale %s]" % name not in text: pass   # w0 is only attempted once t0 is bracketed
            elif not stopped and not m and cross and not edge and 3 < cross[-1] and (cross[-1] < len(v) - 3 or v[cross[-1]] > 1.01 * S and v[cross[-1] - 1] < 0.99 * S):
                R.bad("scale/%s" % K, "%s: %s-scale %s is bracketed but not reported" % (ctx, tag, name))
