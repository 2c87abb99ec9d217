"""Clover field strength, action density and topological charge density of the
real library against the four-leaf definition evaluated in numpy."""
import re, numpy as np
from ctypes import c_void_p, c_long
from common import *
import ref
from glu import P, Capture
PROP = "O02"; LEVEL = "exploration"
RULE = ("random fields of all kinds on random unequal 4D extents 2..6, plain and improved clover builds, 1..8 threads; plus "
        "the built-in instanton; distinct by variant, extents, kind; unit and pure-gauge fields are counted as the zero case")
ASSUMPTIONS = ["relative tolerance 1e-10 on sums, 1e-10 on densities", "improved clover coefficients of Bilson-Thompson et al., hep-lat/0203008"]
MIN_SIGS = 25
VAR = ["nc3", "nc2", "nc4", "nc3nosse", "nc3clover", "nc3cloverk5", "nc2clover", "nc5"]
KINDS = ["hot", "warm", "hot", "gaugeunit", "smooth", "diag", "hot", "unit"]

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []
    for v in VAR:
        for k in range(8 if tier == "quick" else 50):
            out.append(dict(variant=v, label="clover", dims=dims_of(r, 4, 2, 6, 300), kind=KINDS[k % len(KINDS)],
                            seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 9))))
    for v, V in (("nc3", 9000), ("nc2", 66000)):
        out.append(dict(variant=v, label="clover", dims=big_dims(r, 4, V, int(1.3 * V)), kind="warm", seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 9)), cost=5))
    for v in ("nc3", "nc2", "nc4"):
        out.append(dict(variant=v, label="instanton", dims=[10, 10, 10, 10] if v == "nc3" else [10, 8, 10, 12], threads=8, cost=5))
        for _ in range(1 if tier == "quick" else 4): out.append(dict(variant=v, label="instanton", dims=[int(x) for x in r.integers(5, 10, 4)], threads=int(r.integers(1, 9)), cost=5))
    return out

def run(c, g):
    R = Report(); dims = c["dims"]; N = g.NC
    g.setup(dims, c["threads"]); S = g.shim("obs"); lat = ref.Lattice(dims)
    for f in ("z_gmunu", "z_qtop"): getattr(S, f).argtypes = [c_void_p, c_void_p]
    S.z_meas.argtypes = [c_void_p, c_void_p, c_void_p, c_long]
    g.L.compute_Gmunu.argtypes = [c_void_p] * 3
    imp = "clover" in g.variant; k5 = 0.05 if g.variant.endswith("k5") else 0.0
    ctx = "%s dims %s %s" % (g.variant, dims, c.get("kind", c["label"]))
    if c["label"] == "instanton":
        p = g.lat(); g.L.instanton_config.argtypes = [c_void_p]; g.L.instanton_config(p); U = g.get(p)
        a, b = ref.su_defect(U)
        if max(a, b) > 1e-10: R.bad("instanton/group", "%s: links off the group by %g %g" % (ctx, a, b))
    else:
        U = ref.field(rng_of(c["seed"]), dims, N, c["kind"]); p = g.lat(U)
    GG, q = ref.gmunu(lat, U, imp, k5)
    sc = max(abs(q).sum(), 1e-6)
    o = np.zeros(2); S.z_gmunu(p, P(o))
    R.near("threaded/GG", o[0], GG, 1e-10, ctx); R.near("threaded/q", -o[1], q.sum(), 1e-10, ctx, scale=sc)
    a, b = np.zeros(1), np.zeros(1); g.L.compute_Gmunu(P(a), P(b), p)
    R.near("serial/GG", a[0], GG, 1e-10, ctx); R.near("serial/q", -b[0], q.sum(), 1e-10, ctx, scale=sc)
    d = np.zeros(g.V, complex); S.z_qtop(p, P(d))
    R.near("density/q", -d, q, 1e-10, ctx)
    Q = q.sum() / (64 * np.pi ** 2)
    if c["label"] == "instanton":
        R.obs["min_instanton_charge_" + g.variant] = float(Q)
        # the density of a BPST instanton of radius 4 about the centre, as far as this lattice resolves it
        y = lat.x.reshape(4, -1).T - np.array([d // 2 - 0.5 for d in dims]); r2 = (y ** 2).sum(axis=1)
        inn = ((lat.x.reshape(4, -1).T >= 1) & (lat.x.reshape(4, -1).T < np.array(dims) - 2)).all(axis=1)
        rel = (-q / (64 * np.pi ** 2) / (6 * 4.0 ** 4 / np.pi ** 2 / (r2 + 16) ** 4))[inn]; R.ok(n=int(inn.sum()))
        R.obs["max_instanton_density_" + g.variant] = float(rel.mean())
        if not (np.abs(rel) > 0.8).all() or not (np.abs(rel) < 1.1).all() or np.abs(np.sign(rel) - np.sign(rel[0])).max() > 0:
            R.bad("instanton/density", "%s: density between %g and %g times that of the continuum" % (ctx, rel.min(), rel.max()))
        if min(dims) >= 8 and not 0.6 < abs(Q) < 1.1: R.bad("instanton/charge", "%s: charge %g" % (ctx, Q))
        # in the singular gauge the field keeps its direction along a link: angles are ordinary integrals
        z = np.linspace(0, 1, 4001)
        pick = rng_of(c["threads"], dims).choice(lat.V, 40, replace=False)
        for i in pick:
            for nu in range(4):
                v = y[i]; s2 = (v ** 2).sum() - v[nu] ** 2; u = (v[nu] + z) ** 2 + s2
                f = 1 / u - 1 / (u + 16); a = (f[1:-1:2].sum() * 4 + f[2:-1:2].sum() * 2 + f[0] + f[-1]) / 12000
                b = np.array([[-v[3] * 1, v[2], -v[1]], [-v[2], -v[3], v[0]], [v[1], -v[0], -v[3]], [v[0], v[1], v[2]]][nu]) * a
                n = np.sqrt((b ** 2).sum()); tr = 2 * np.cos(n) + N - 2
                R.ok()
                if abs(np.trace(U[i, nu]) - tr) > 1e-6: R.bad("instanton/links", "%s: link %d %d has trace %r, the integral of the field gives %g" % (ctx, i, nu, np.trace(U[i, nu]), tr))
    elif c["kind"] in ("unit", "gaugeunit") and (abs(o).max() > 1e-9 or abs(d).max() > 1e-10):
        R.bad("puregauge", "%s: non-zero field strength %s" % (ctx, o))
    # the measurement of the smearing and flow loops: printed values and the verdict
    for off in (0.0, 0.003, 0.3):
        qn, qo = np.zeros(1), np.array([Q + off])
        with Capture(g.B) as cap: f = S.z_meas(p, P(qn), P(qo), 7)
        R.near("measure/charge", qn[0], Q, 1e-9, ctx, scale=max(abs(Q), sc / 600))
        m = re.search(r"\[QTOP\] \{iter\} (\d+) \{GG\} (\S+) \{q\} (\S+) \{diff\} (\S+)", cap.text)
        if not m: R.bad("measure/print", "no measurement line: %s" % cap.text[:300]); break
        R.near("measure/printed", [float(m.group(1)), float(m.group(2)), float(m.group(3)), float(m.group(4))],
               [7, GG / (16.0 * g.V), Q, off], 3e-5, ctx)
        conv = off < 0.005 and abs(Q - round(Q)) < 0.10
        if abs(off - 0.005) > 1e-4 and abs(abs(Q - round(Q)) - 0.1) > 1e-4 and (f == 0) != conv:
            R.bad("measure/verdict", "%s: charge %g previous %g reported as %s" % (ctx, Q, Q + off, f))
    # parity along one axis: the charge changes sign, the action does not
    mu = int(c.get("seed", 1)) % 4
    y = lat.x.copy(); y[mu] = -y[mu]; idx = lat.index(y)
    Vv = np.empty_like(U)
    for nu in range(4):
        Vv[:, nu] = ref.dag(U[lat.bw[mu][idx], nu]) if nu == mu else U[idx, nu]
    g.set(p, Vv); S.z_gmunu(p, P(o))
    R.near("parity/GG", o[0], GG, 1e-10, ctx); R.near("parity/q", o[1], q.sum(), 1e-10, ctx, scale=sc)
    g.free(p)
    R.ok("%s %s %s" % (g.variant, dims, c.get("kind", "instanton")))
    return R.out()
