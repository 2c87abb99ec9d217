"""A gauge reported as reached is reached: every successful run is judged by an
independent evaluation of the defining condition on the field it left."""
import re
import numpy as np
from common import *
import ref, rgf
PROP = "F02"; LEVEL = "exploration"
RULE = ("Landau, Coulomb, Coulomb+residual, over-relaxed, axial, maximal axial and residual fixing to accuracies 1e-5..1e-20 with iteration limits 1..4000, in FFT, non-FFT, steepest-descent, exact-exponential, Gribov-copy and over-relaxed builds, "
        "the configuration file present, missing or generated, already-fixed fields fixed again; what is printed (accuracy, per slice outcome, functional) against the field itself; fixing diagnostics on arbitrary fields against definitions; "
        "distinct by variant, routine, field, outcome")
ASSUMPTIONS = ["gradient of the Coulomb stopping measure is bounded below by the bare divergence (momentum preconditioner >= 1)",
               "over-relaxation stops on the change of the link trace; its divergence is only required to be small in proportion"]
MIN_SIGS = 80
VAR = ["nc3", "nc2", "nc4gsl", "nc5nd3", "nc3nofft", "nc3nosse", "nc3sd", "nc2sd", "nc3luxury", "nc3exact", "nc4exact", "nc3or", "nc2nd3", "nc2nofft"]
BUILDS = VAR
KINDS = ["hot", "warm", "diag", "unit", "gaugeunit", "smooth", "fixed"]

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; m = 1 if tier == "quick" else 8
    for v in VAR:
        N, ND = ncnd(v)
        special = v in ("nc3sd", "nc2sd", "nc3luxury", "nc3exact", "nc4exact", "nc3or", "nc3nosse")
        modes = [("landau", 7), ("coulomb", 6), ("wrap:coulomb_residual", 2), ("wrap:landau", 2), ("wrap:coulomb", 1)]
        if not special: modes += [("orlandau", 3), ("orcoulomb", 3), ("axial", ND), ("mag", 2), ("residual", 2), ("wrap:axial", 1), ("wrap:mag", 1), ("diagnostics", 3)]
        for mode, n in modes:
            if v == "nc3or" and not mode.startswith("wrap"): continue
            for k in range(n * m):
                out.append(dict(variant=v, label=mode.replace(":", " "), mode=mode, dims=dims_of(r, ND, 2, 6, 400 if N < 4 else 200),
                    kind=KINDS[(k + int(r.integers(7))) % 7], iters=[2, 30, 500, 4000][int(r.integers(4))],
                    acc=float(10.0 ** -r.integers(5, 21 if "or" not in mode.split(":")[-1][:2] else 14)), alpha=float(r.choice([0.03, 0.08, 0.09, 0.1, 0.2])),
                    file=["good", "good", "good", "missing"][int(r.integers(4))], head=[1, 1, 1, 10][int(r.integers(4))],
                    orpar=float(r.choice([0.0, 0.3, 0.7])), direction=k % ND, seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 8))))
    return out

def diagnostics(c, g, R):
    dims = c["dims"]; N, ND = g.NC, g.ND; r = rng_of(c["seed"]); lat = ref.Lattice(dims); G = rgf.shim(g)
    kind = c["kind"] if c["kind"] != "fixed" else "warm"
    U = ref.field(r, dims, N, kind); p = g.lat(U); ctx = "%s %s %s" % (g.variant, kind, dims)
    import ctypes
    for d, nm in ((ND, "Landau"), (ND - 1, "Coulomb")):
        t = rgf.theta_site(lat, U, d); mx = ctypes.c_double(0)
        R.near("diagnostics/theta " + nm, G.z_theta_lin(p, ctypes.byref(mx), d), 4 * t.sum() / (N * lat.V), 1e-10, ctx)
        R.near("diagnostics/theta max " + nm, mx.value, 2 * t.max(), 1e-10, ctx)
        L = ref.log_su(U); sep = kind in ("warm", "smooth", "unit")
        if sep:
            D = sum(L[:, m] - L[lat.bw[m], m] for m in range(d)); tl = np.einsum("vij,vji->v", D, D).real
            R.near("diagnostics/theta log " + nm, G.z_theta_log(p, ctypes.byref(mx), d), 4 * tl.sum() / (N * lat.V), 1e-8, ctx)
    R.near("diagnostics/functional", G.z_functional(p), rgf.functional(U), 1e-12, ctx)
    h = np.ascontiguousarray(ref.field(r, dims, N, "hot")[:, 0])
    q = g.gfield(h)
    R.near("diagnostics/gauge", G.z_gauge_test(q), 1 - np.trace(h, axis1=-2, axis2=-1).real.mean() / N, 1e-12, ctx)
    T = dims[-1]; LCU = lat.V // T
    g.B.v_gfree(q)
    a, b = ctypes.c_double(0), ctypes.c_double(0); G.z_const_time(p, ctypes.byref(a), ctypes.byref(b))
    S = rgf.hproj(U)[:, ND - 1].reshape(T, LCU, N, N).sum(axis=1); D = S[1:] - S[0]
    if N == 3: v = sum(abs(D[:, i, j]) for i, j in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2)))
    elif N == 2: v = sum(abs(D[:, i, j]) for i, j in ((0, 0), (0, 1)))
    else: v = abs(D).sum(axis=(1, 2))
    R.near("diagnostics/temporal constancy", a.value, v.sum() / (N * N * (T - 1)), 1e-9, ctx)
    g.free(p); R.ok("%s diagnostics %s" % (g.variant, kind)); R.obs["diagnostics compared"] = 1

def tree_sites(lat, mu):
    s = lat.x[mu] < lat.dims[mu] - 1
    return s

def run(c, g):
    R = Report(); dims = c["dims"]; N, ND = g.NC, g.ND; r = rng_of(c["seed"]); mode = c["mode"]
    g.setup(dims, c["threads"], seed=1 + c["seed"] % 100000); lat = ref.Lattice(dims)
    if mode == "diagnostics": diagnostics(c, g, R); return R.out()
    base = mode.split(":")[-1]; orr = base.startswith("or") or g.variant == "nc3or" and base in ("landau", "coulomb", "coulomb_residual")
    kind = c["kind"]
    if kind == "fixed":
        pre = base[2:] if base.startswith("or") else "coulomb" if base.startswith("coulomb") else base
        if g.variant == "nc3or": pre = "or" + pre if pre in ("landau", "coulomb") else pre
        U = ref.field(r, dims, N, "warm")
        U = rgf.fix(g, U, pre, 1e-24 if not pre.startswith("or") else 1e-15, 2000, 0.08 , "none", c["direction"], 10, 0.3).W
    else: U = ref.field(r, dims, N, kind)
    if orr:
        g.B.v_gfalpha(c["orpar"]); alpha = c["orpar"]
    else: alpha = c["alpha"]
    it = c["iters"] if alpha < 0.15 or orr else min(c["iters"], 200)   # unstable tuning: must fail honestly
    o = rgf.fix(g, U, mode, c["acc"], it, alpha, c["file"], c["direction"], c["head"], c["orpar"])
    ctx = "%s %s %s dims %s iters %d acc %g alpha %g restarts %d" % (g.variant, mode, kind, dims, c["iters"], c["acc"], alpha, o.restarts)
    k = mode.replace("wrap:", "wrapped "); W = o.W; T = dims[-1]; LCU = lat.V // T; state = "done"
    if not np.isfinite(W).all():
        R.ok()
        if not (base == "landau" and o.ret in (rgf.FAIL, -1)): R.bad(k + "/finite", ctx + ": field is not finite, returned %s: %s" % (o.ret, o.text[-1500:]))
        R.obs["fields lost and reported"] = 1
        return R.out()
    said = re.search(r"Failure to converge|Insufficient Conv", o.text)
    if base == "landau" and not orr:
        theta = rgf.theta_site(lat, W, ND).sum() / (N * lat.V); failed = (o.ret == rgf.FAIL or o.ret == -1)
        state = "failed" if failed else "converged"
        R.ok()
        if failed: R.obs["failures reported"] = 1
        else:
            R.obs["convergences judged"] = 1
            if not theta <= c["acc"] * 3 + (1e-28 if alpha < 0.15 else 1e-8): R.bad(k + "/accuracy", "%s: reported success, Tr(dA)^2/(NV) = %g" % (ctx, theta))
            if o.acc is None or not o.acc <= c["acc"] * 1.0001: R.bad(k + "/reported accuracy", "%s: %s" % (ctx, o.acc))
            if said: R.bad(k + "/consistent", "%s: success returned, failure printed" % ctx)
            if not o.restarts and g.variant != "nc3luxury" and not o.func <= o.func0 + 1e-9:
                R.bad(k + "/functional", "%s: %.15g became %.15g" % (ctx, o.func0, o.func))
            m = re.search(r"\[GF\] Functional :: (\S+)", o.text)
            if m: R.near(k + "/printed functional", float(m.group(1)), rgf.functional(W), 1e-12, ctx)
            m = re.search(r"\[GF\] Plaquette :: (\S+)", o.text)
            if m: R.near(k + "/printed plaquette", float(m.group(1)), ref.plaquettes(lat, W)[0], 1e-12, ctx)
    elif base in ("coulomb", "coulomb_residual") and not orr:
        sl = rgf.theta_site(lat, W, ND - 1).reshape(T, LCU).sum(axis=1) / (N * LCU)
        R.ok()
        if sorted(t for t, _, _ in o.slices) != list(range(T)):
            R.bad(k + "/slices", "%s: outcomes printed for slices %s" % (ctx, [t for t, _, _ in o.slices]))
        nc = 0
        for t, why, a in o.slices:
            conv = why == "convergence"; nc += conv; R.ok()
            if conv and not a <= c["acc"]: R.bad(k + "/slice report", "%s: slice %d converged with accuracy %g" % (ctx, t, a))
            if conv and not sl[t] <= c["acc"] * 3 + (1e-28 if alpha < 0.15 else 1e-8): R.bad(k + "/accuracy", "%s: slice %d reported converged, Tr(dA)^2/(NV) = %g" % (ctx, t, sl[t]))
            if not conv and a <= c["acc"] * 0.99: R.bad(k + "/slice report", "%s: slice %d stopped, accuracy %g" % (ctx, t, a))
        R.obs["convergences judged"] = nc; R.obs["failures reported"] = len(o.slices) - nc
        if not mode.startswith("wrap") and base == "coulomb":      # the last thing it does is to say what it has reached
            for rx, want in ((r"Final Tlink :: (\S+)", np.trace(W[:, ND - 1], axis1=1, axis2=2).real.mean() / N), (r"Final Tlink[^\n]*Slink :: (\S+)", np.trace(W[:, :ND - 1], axis1=2, axis2=3).real.mean() / N),
                             (r"Final Tlink[^\n]*\n\[GF\] Plaquette :: (\S+)", ref.plaquettes(lat, W)[0])):
                m = re.search(rx, o.text)
                if m: R.near(k + "/printed " + rx[:11], float(m.group(1)), want, 1e-12, ctx)
        if nc == T and not o.restarts:
            f0, f1 = rgf.functional(U, ND - 1), rgf.functional(W, ND - 1)
            if not f1 <= f0 + 1e-9: R.bad(k + "/functional", "%s: %.15g became %.15g" % (ctx, f0, f1))
        state = "converged" if nc == T else "failed"
    elif orr and base not in ("axial", "mag", "residual"):
        co = "coulomb" in base; d = ND - 1 if co else ND
        theta = rgf.theta_site(lat, W, d).reshape(T, LCU).sum(axis=1) / (N * LCU)
        f0, f1 = rgf.functional(U, d), rgf.functional(W, d); R.ok()
        if not f1 <= f0 + 1e-9: R.bad(k + "/functional", "%s: %.15g became %.15g" % (ctx, f0, f1))
        if co:
            if sorted(t for t, _, _ in o.slices) != list(range(T)): R.bad(k + "/slices", "%s: outcomes printed for slices %s" % (ctx, [t for t, _, _ in o.slices]))
            conv = [t for t, why, _ in o.slices if why == "convergence"]
        else: conv = list(range(T)) if (o.ret if not mode.startswith("wrap") else o.ret) < c["iters"] else []
        if alpha ** (LCU if co else lat.V) > 1e-9: conv = []    # every site of so small a lattice may overrelax at once, leaving the trace as it was
        lim = max(2e3 * c["acc"], 1e-12)
        R.obs["convergences judged"] = len(conv)
        bad = [t for t in conv if not theta[t] <= lim] if co else ([0] if conv and not theta.mean() <= lim else [])
        if bad: R.bad(k + "/accuracy", "%s: reported converged, Tr(dA)^2/(NV) = %s" % (ctx, theta[bad] if co else theta.mean()))
        R.obs["max orx"] = float((theta[conv].max() if co else theta.mean()) / c["acc"]) if conv else 0.0
        state = "converged" if conv else "stopped"
    if base == "axial":
        d = c["direction"] if mode == "axial" else ND - 1; s = lat.x[d] < dims[d] - 1
        R.near(k + "/trivial links", W[s, d], np.broadcast_to(np.eye(N), W[s, d].shape), 1e-10, ctx + " direction %d" % d)
    if base == "mag":
        for mu in range(ND):
            s = (lat.x[mu] < dims[mu] - 1) & (lat.x[mu + 1:] == 0).all(axis=0)
            R.near(k + "/tree", W[s, mu], np.broadcast_to(np.eye(N), W[s, mu].shape), 1e-10, ctx + " direction %d" % mu)
    if base in ("residual", "coulomb_residual"):
        if base == "residual" or state == "converged" or True:
            av = W[:, ND - 1].reshape(T, LCU, N, N).mean(axis=1); ok = av[:T - 1]
            # the average is a positive multiple of what it was projected from: maximal trace over SU(N)
            H = (ok - ref.dag(ok)) / 2j; H = H - np.eye(N) * (np.trace(H, axis1=-2, axis2=-1) / N)[..., None, None]
            if len(ok):
                scale = np.linalg.svd(ok, compute_uv=False); good = scale[:, -1] + scale[:, -2] > 0.02
                e = abs(H).max(axis=(1, 2)) / np.maximum(scale[:, 0], 1e-300); R.ok()
                R.obs["residual slices judged"] = int(good.sum())
                if (e[good] > 2e-4).any(): R.bad(k + "/residual", "%s: averaged temporal link keeps an antihermitian part of %g" % (ctx, e[good].max()))
                if base == "residual":
                    b4 = np.trace(U[:, ND - 1].reshape(T, LCU, N, N).mean(axis=1), axis1=-2, axis2=-1).real[:T - 1].sum()
                    af = np.trace(ok, axis1=-2, axis2=-1).real.sum()
                    if af < b4 - 1e-6 * N * T: R.bad(k + "/trace", "%s: temporal traces fell from %g to %g" % (ctx, b4, af))
    R.ok("%s %s %s %s" % (g.variant, mode, kind, state))
    return R.out()
if __name__ == "__main__":
    import fw; fw.main(__file__)
