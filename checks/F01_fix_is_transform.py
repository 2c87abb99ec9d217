"""Every gauge-fixing routine run to success, to its iteration limit and to
failure: the field it leaves must be a gauge transform of the one it got."""
import numpy as np
from common import *
import ref, rgf
PROP = "F01"; LEVEL = "exploration"
RULE = ("Landau, Coulomb, Coulomb+residual, over-relaxed Landau and Coulomb, axial (each direction), maximal axial and residual fixing, steepest descent, conjugate gradient and Gribov-copy builds, with and without FFT, "
        "from hot, warm, smooth, trivial, pure-gauge, abelian and center fields on unequal extents 2..6; iteration limits from 1 to 400 so that runs converge, continue, restart from the file, or fail, also with the file gone; "
        "the transformation itself is reconstructed and re-applied; distinct by variant, routine, field, outcome")
ASSUMPTIONS = ["1e-9 relative agreement after hundreds of accumulated transformations", "irreducible fields for the reconstruction of the transformation; loop traces otherwise"]
MIN_SIGS = 80
VAR = ["nc3", "nc2", "nc4gsl", "nc5nd3", "nc3nofft", "nc3nosse", "nc3sd", "nc2sd", "nc3luxury", "nc3exact", "nc4exact", "nc3or", "nc2nd3"]
BUILDS = VAR
ITER = ["landau", "coulomb", "wrap:coulomb_residual", "orlandau", "orcoulomb", "wrap:landau"]
DIRECT = ["axial", "mag", "residual", "wrap:axial", "wrap:mag"]

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []
    for v in VAR:
        N, ND = ncnd(v)
        special = v in ("nc3sd", "nc2sd", "nc3luxury", "nc3exact", "nc4exact", "nc3or", "nc3nosse")
        for mode in ITER + ([] if special else DIRECT):
            if special and mode.startswith("or"): continue
            n = (6 if mode in ("landau", "coulomb") else 3 if mode in ITER else 3) * (1 if tier == "quick" else 8)
            for k in range(n):
                out.append(dict(variant=v, label=mode.replace(":", " "), mode=mode, dims=dims_of(r, ND, 2, 6, 400 if N < 4 else 200),
                    kind=["hot", "warm", "diag", "unit", "gaugeunit", "center", "smooth"][(k + int(r.integers(3))) % 7],
                    iters=[1, 4, 25, 400][int(r.integers(4))], acc=float(10.0 ** -r.integers(5, 14)),
                    alpha=float(r.choice([0.03, 0.08, 0.09, 0.1])), file=["good", "good", "good", "missing"][int(r.integers(4))],
                    head=[1, 1, 1, 10][int(r.integers(4))], orpar=float(r.choice([0.0, 0.3, 0.9])),
                    direction=k % ND, seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 8))))
    for v, V in (("nc2", 20000), ("nc3", 8000), ("nc3nofft", 8000)):
        for mode in ("landau", "coulomb", "axial", "mag"):
            if v not in VAR: continue
            out.append(dict(variant=v, label=mode, mode=mode, dims=big_dims(r, 4, V, int(1.3 * V)), kind="warm", iters=4 if mode == "landau" else 15, acc=1e-5, alpha=0.08, file="good", head=1, orpar=0.3,
                            direction=int(r.integers(4)), seed=int(r.integers(1 << 31)), threads=int(r.integers(2, 8))))
    return out

def run(c, g):
    R = Report(); dims = c["dims"]; N, ND = g.NC, g.ND; r = rng_of(c["seed"]); mode = c["mode"]
    g.setup(dims, c["threads"], seed=1 + c["seed"] % 100000); lat = ref.Lattice(dims); U = ref.field(r, dims, N, c["kind"])
    if c["kind"] == "center" and (mode.startswith("or") or "residual" in mode or g.variant == "nc3or"):   # vanishing sums have no direction to rotate to
        U = ref.field(r, dims, N, "hot")
    o = rgf.fix(g, U, mode, c["acc"], c["iters"], c["alpha"], c["file"], c["direction"], c["head"], c["orpar"])
    ctx = "%s %s %s dims %s iters %d acc %g restarts %d" % (g.variant, mode, c["kind"], dims, c["iters"], c["acc"], o.restarts)
    k = mode.replace("wrap:", "wrapped ")
    W = o.W; R.ok()
    if not np.isfinite(W).all():
        R.bad(k + "/finite", ctx + ": field is not finite"); return R.out()
    a, b = ref.su_defect(W); R.ok()
    R.obs["max unitarity defect"] = float(max(a, b))
    if not max(a, b) < 1e-8: R.bad(k + "/group", "%s: links off the group by %g" % (ctx, max(a, b)))
    R.near(k + "/plaquettes", ref.plaq_traces(lat, W), ref.plaq_traces(lat, U), 1e-9, ctx)
    for mu in range(ND):
        R.near(k + "/polyakov", ref.polyakov(lat, W, mu), ref.polyakov(lat, U, mu), 1e-9, ctx)
    h, defect = rgf.find_transform(lat, U, W); R.ok()
    if not defect < 1e-6: R.bad(k + "/equivalence", "%s: no transformation takes one field to the other, defect %g per link" % (ctx, defect))
    elif h is not None:
        a, b = ref.su_defect(h)
        if not max(a, b) < 1e-6: R.bad(k + "/transformation group", "%s: %g" % (ctx, max(a, b)))
        R.near(k + "/transform", ref.transform(lat, U, h), W, 1e-7, ctx)
    R.obs["runs restarted"] = 1 if o.restarts else 0
    R.obs["transformations reconstructed"] = 1 if h is not None else 0
    R.obs["fields changed"] = 1 if abs(W - U).max() > 1e-6 else 0
    R.ok("%s %s %s %s" % (g.variant, mode, c["kind"], "failed" if (o.ret in (rgf.FAIL, -1)) else "restarted" if o.restarts else "direct"))
    return R.out()
