"""Statistics of the real heat bath against the Boltzmann distribution."""
import ctypes
import numpy as np
from common import *
import ref, rupd
from glu import P, Capture
PROP = "U02"; LEVEL = "exploration"
RULE = ("(a) thousands of heat-bath hits of single links on frozen surroundings: the subgroup component follows the analytic density, its "
        "direction is uniform and successive hits are independent (Kolmogorov-Smirnov and correlation tests), couplings 1e-3..1e4; "
        "(b) Markov chains from unit and random starts with 0-4 over-relaxation sweeps on small lattices: the exact Schwinger-Dyson "
        "identity of the Wilson action and the plaquette of an independent Metropolis program; (c) the driver performs the requested sweeps at the requested coupling, against the sweeps one by one from the same generator; distinct by variant, coupling, pattern, start")
ASSUMPTIONS = ["statistical acceptance: every test has a false-alarm probability below 1e-7",
               "the sequence of subgroups and directions within a sweep is free: (a) asks for the analytic distribution of whichever link and subgroup is hit last"]
MIN_SIGS = 40
TIMEOUT = 400
PIT = ["nc3", "nc2", "nc4", "nc5nd3", "nc3nosse", "nc2nd3", "nc3kiss"]
BUILDS = sorted(set(PIT + ["nc3nd3", "nc3symanzik", "nc3nstoch", "nc4nstoch"]))
PTAIL = 1e-9

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; th = tier != "quick"
    for v in PIT:
        ND = ncnd(v)[1]; grid = [1e-3, 0.05, 0.5, 2.0, 6.0, 20.0, 1e4]
        for b in grid if th else [grid[int(j)] for j in r.permutation(len(grid))[:4]] + [float(10 ** r.uniform(-2, 2))]:
            out.append(dict(variant=v, label="hit", beta=b * float(r.uniform(0.8, 1.25)), kind=["hot", "warm"][int(r.integers(2))], dims=dims_of(r, ND, 2, 4, 60),
                            n=20000 if th else 4000, seed=int(r.integers(1 << 31)), threads=1))
    # spec: variant, dims, beta
    sd = [("nc2", [2, 2, 2, 2], 2.2), ("nc2", [3, 2, 2, 3], 1.0), ("nc2", [2, 2, 2, 2], 0.1), ("nc2", [2, 2, 2, 2], 6.0),
          ("nc3", [2, 2, 2, 3], 5.5), ("nc3", [2, 3, 2, 2], 1.0), ("nc3", [3, 3, 3, 3], 5.7), ("nc3nosse", [2, 2, 2, 3], 5.5),
          ("nc4", [2, 2, 2, 2], 10.5), ("nc5nd3", [2, 2, 2], 15.0), ("nc2nd3", [3, 2, 2], 4.0), ("nc3nd3", [2, 3, 2], 10.0),
          ("nc3kiss", [2, 2, 2, 3], 5.5), ("nc3nstoch", [2, 2, 2, 3], 5.5), ("nc4nstoch", [2, 2, 2, 2], 10.5), ("nc3symanzik", [4, 4, 4, 4], 4.3)]
    for v, d, b in sd:
        pats = [(1, 0), (1, int(r.integers(1, 5)))]
        for nhb, nor in pats:
            V = int(np.prod(d)); nm = int((1e6 if not th else 4e6) / V / (1 + 0.4 * nor) / ncnd(v)[0] ** 1.5)
            if v == "nc3symanzik": nm = 500 if not th else 4000
            out.append(dict(variant=v, label="chain", dims=d, beta=b, nhb=nhb, nor=nor, n=nm, start=["unit", "hot"][int(r.integers(2))],
                            seed=int(r.integers(1 << 31)), threads=int(r.choice([1, 1, 2, 3]))))
    # the driver: the requested coupling, over-relaxations and number of sweeps are what it performs
    for v in PIT + ["nc3nd3", "nc3symanzik", "nc3nstoch"]:
        for k in range(4 if not th else 20):
            ND = ncnd(v)[1]; N = ncnd(v)[0]
            out.append(dict(variant=v, label="driver", dims=[4] * 4 if v == "nc3symanzik" else dims_of(r, ND, 2, 4, 60), beta=float(N * 2.0 ** r.integers(-2, 4)), nor=int([0, 1, 3, 5, 9][int(r.integers(5))]),
                            therm=int(r.integers(0, 4)), n=int(r.integers(1, 4)), start=["unit", "hot"][int(r.integers(2))], seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 5))))
    return out

def driver(c, g, R, S, p, ctx):
    """hb_update against the sweeps done one after another, from the same generator; the coupling is N times a power of two, so that no way of inverting it rounds"""
    import os, tempfile
    old = os.getcwd(); U = g.get(p)
    with tempfile.TemporaryDirectory(prefix="gluu02") as wd:
        os.chdir(wd)
        try:
            g.B.v_flow(0)
            with Capture(g.B) as cap: st = S.u_update(p, c["beta"], c["n"], 1, c["nor"], 1000, c["therm"], 0, b"conf", 3, b"test")
        finally: os.chdir(old)
    A = g.get(p); g.setup(c["dims"], c["threads"], c["seed"] % 1000003 + 1); g.set(p, U)
    with Capture(g.B): s2 = S.u_sweep(p, c["beta"], 1, c["nor"], c["therm"] + c["n"])
    B = g.get(p)
    R.ok("driver/%s/%g/%d/%d/%d/%s" % (g.variant, c["beta"], c["nor"], c["therm"], c["n"], c["start"]))
    if st or s2: R.bad("driver/status", ctx + ": refused"); return
    e = abs(A - B).max()
    if not e < 1e-9: R.bad("driver/sweeps", "%s: %d thermalising and %d updating iterations with %d over-relaxations end %.3g away from that many sweeps at the requested coupling" % (ctx, c["therm"], c["n"], c["nor"], e))
    if g.variant != "nc2nd3" and abs(B - U).max() < 1e-3: R.bad("driver/moved", ctx + ": the links did not move")

def hit(c, g, R, S, p, U, ctx):
    N, ND = g.NC, g.ND; n = c["n"]
    W = np.zeros((n, ND, N, N), complex)
    site = c["seed"] % g.V
    with Capture(g.B): S.u_pit(p, c["beta"], site, n, P(W))
    best = None
    for mu in range(ND):
        for i in range(N):
            for j in range(i + 1, N):
                w = W[:, mu]
                c0 = w[:, i, i] + w[:, j, j].conj(); c1 = w[:, i, j] - w[:, j, i].conj()
                k = np.sqrt(abs(c0) ** 2 + abs(c1) ** 2)
                if not np.isfinite(k).all(): R.bad("hit/finite", ctx + ": link is not finite"); return
                a0 = c0.real / k
                u = rupd.a0_cdf(a0, c["beta"] / N * k)
                rr = np.sqrt(np.maximum(1e-300, 1 - a0 ** 2)); a3 = c0.imag / k / rr; ph = np.angle(c1) / (2 * np.pi) % 1.0
                if c["beta"] > 1e3: a3 = c0.imag / np.sqrt(c0.imag ** 2 + abs(c1) ** 2)
                s = (a3 + 1) / 2
                # conditionally on the surroundings these three are uniform and independent
                tests = {"a0": rupd.ks_p(u)[0], "a3": rupd.ks_p(s)[0], "phase": rupd.ks_p(ph)[0], "a0*a3": rupd.corr_p(u, s), "a0*|a3|": rupd.corr_p(u, abs(s - .5)),
                         "a0 lag": rupd.corr_p(u[1:], u[:-1]), "a3 lag": rupd.corr_p(s[1:], s[:-1]), "phase lag": rupd.corr_p(ph[1:], ph[:-1]),
                         "a0 repeats": 1.0 if np.unique(u).size > 0.9 * n else 0.0}
                m = min(tests, key=tests.get)
                if best is None or tests[m] > best[0]: best = (tests[m], m, mu, i, j, float(u.mean()), float(s.mean()))
    R.ok("hit/%s/%d/%s" % (g.variant, int(np.floor(3 * np.log10(c["beta"]))), c["kind"]), n * ND)
    R.obs["hits observed " + g.variant] = n
    if best[0] < PTAIL:
        R.bad("hit/distribution", "%s: in no direction and subgroup do the link components follow the heat-bath density; closest is direction %d subgroup (%d,%d): "
              "%s test has p=%.2g (mean of the uniformised a0 %.4f, of the polar component %.4f)" % ((ctx,) + best[2:5] + (best[1], best[0]) + best[5:]))

def chain(c, g, R, S, p, ctx):
    n = c["n"]; out = np.zeros((n, 4)); imp = g.variant.startswith("nc3symanzik")
    with Capture(g.B): st = S.u_chain(p, c["beta"], c["nhb"], c["nor"], max(100, n // 20), n, 1, P(out))
    if st: R.bad("chain/status", ctx + ": refused"); return
    R.ok("chain/%s/%s/%g/%d/%s" % (g.variant, c["dims"], c["beta"], c["nor"], c["start"]), n)
    if not np.isfinite(out).all() or out[:, 3].max() > 1e-10: R.bad("chain/group", "%s: links off the group by %g" % (ctx, out[:, 3].max())); return
    nb = 40
    def blocks(x): return np.array([b.mean() for b in np.array_split(x, nb)])
    if not imp:
        d = blocks(out[:, 1] - out[:, 2]); t = d.mean() / (d.std(ddof=1) / np.sqrt(nb)); rel = d.mean() / out[:, 1].mean()
        R.ok(); R.obs["chain worst Schwinger-Dyson t"] = abs(t) if abs(t) < 7.5 else 0
        if not abs(t) <= 7.5: R.bad("chain/identity", "%s: Schwinger-Dyson identity off by %.3g of its value, %.1f standard errors" % (ctx, rel, t))
    key = (g.NC, g.ND, int(imp), c["beta"], tuple(c["dims"]))
    if key in rupd.METROPOLIS:
        m, e = rupd.METROPOLIS[key]; q = blocks(out[:, 0]); err = np.hypot(q.std(ddof=1) / np.sqrt(nb), e); t = (q.mean() - m) / err
        R.ok(); R.obs["chain worst plaquette t"] = abs(t) if abs(t) < 7.5 else 0; R.obs["chain plaquette relative error"] = float(err / m)
        if not abs(t) <= 7.5: R.bad("chain/plaquette", "%s: plaquette %.6f, Metropolis %.6f, %.1f standard errors of %.2g" % (ctx, q.mean(), m, t, err))

def run(c, g):
    R = Report(); dims = c["dims"]; r = rng_of(c["seed"]); N, ND = g.NC, g.ND
    g.setup(dims, c["threads"], c["seed"] % 1000003 + 1); S = g.shim("upd")
    S.u_pit.argtypes = [ctypes.c_void_p, ctypes.c_double, ctypes.c_size_t, ctypes.c_int, ctypes.c_void_p]
    S.u_chain.argtypes = [ctypes.c_void_p, ctypes.c_double] + [ctypes.c_int] * 5 + [ctypes.c_void_p]
    kind = c.get("kind") or c["start"]
    U = ref.field(r, dims, N, kind); p = g.lat(U)
    ctx = "%s %s dims %s beta %g %s threads %d seed %d%s" % (g.variant, c["label"], dims, c["beta"], kind, c["threads"], c["seed"],
                                                    " over-relaxations %d, %d sweeps" % (c["nor"], c["n"]) if "nor" in c else "")
    S.u_update.argtypes = [ctypes.c_void_p, ctypes.c_double] + [ctypes.c_size_t] * 5 + [ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_char_p]
    S.u_sweep.argtypes = [ctypes.c_void_p, ctypes.c_double] + [ctypes.c_int] * 3
    if c["label"] == "hit": hit(c, g, R, S, p, U, ctx)
    elif c["label"] == "driver": driver(c, g, R, S, p, ctx)
    else: chain(c, g, R, S, p, ctx)
    g.free(p)
    return R.out()
