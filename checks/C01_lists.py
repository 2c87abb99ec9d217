"""Momentum lists and file layout of every correlator file, decoded on its own
and compared with an independent evaluation of the cuts."""
import numpy as np
from common import *
import ref, rcuts
PROP = "C01"; LEVEL = "exploration"
RULE = ("all gluon modes over random even and odd extents up to 2600 sites, caps from zero to the whole zone, four cuts with random widths and angles, "
        "two time-separated runs; the file is decoded byte by byte and its vectors compared with the cut evaluated in numpy; distinct by variant, mode, cut, extents, cap, width, angle")
ASSUMPTIONS = ["vectors within rounding of a cut's edge may be listed or not",
               "which vector represents a momentum at the zone edge follows the stated range [-L/2, L/2)",
               "the stored-list build is run twice in one directory; the second run reads what the first stored"]
MIN_SIGS = 60
VAR = ["nc3", "nc2", "nc3nd3", "nc5nd3", "nc3nosse", "nc3store"]
BUILDS = VAR
MODES = ["EXCEPTIONAL", "NONEXCEPTIONAL", "FIELDS", "SMEARED_GLUONS", "INSTANTANEOUS_GLUONS", "CONFIGSPACE_GLUONS", "GLUON_PROPS"]
CUTS = ["HYPERCUBIC_CUT", "PSQ_CUT", "CYLINDER_CUT", "CYLINDER_AND_CONICAL_CUT"]

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []
    for v in VAR:
        N, ND = ncnd(v)
        for cut in CUTS:
            for mode in MODES:
                if mode in ("NONEXCEPTIONAL", "CONFIGSPACE_GLUONS") and cut != "PSQ_CUT": continue
                for k in range(9 if tier == "quick" else 60):
                    d = dims_of(r, ND, 2, 10, 2600 if N < 4 else 900)
                    if k == 0: d = [int(2 * r.integers(2, 4))] * ND; d[int(r.integers(ND))] *= 2 if ND == 3 else 1
                    mm = int([0, r.integers(1, 6), r.integers(6, 30), 1000][int(r.integers(4))])
                    if mode == "NONEXCEPTIONAL": mm = int(r.integers(2, 5)); d = [int(r.integers(4, 7))] * ND
                    out.append(dict(variant=v, label=mode.lower(), mode=mode, dims=[int(x) for x in d], cut=cut, log=int(r.integers(2)),
                        seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 7)), max_mom=mm, width=float(np.round(r.uniform(0.05, 3.0), 3)),
                        angle=int(r.integers(1, 91)), flow=int(r.integers(0, 99999))))
    # long lists: more momenta than sixteen bits count
    for v, V, mode in (("nc2nofft", 0, ""), ("nc2", 66000, "FIELDS"), ("nc2", 20000, "GLUON_PROPS"), ("nc3", 20000, "EXCEPTIONAL"), ("nc3", 9000, "SMEARED_GLUONS"), ("nc2", 66000, "INSTANTANEOUS_GLUONS")):
        if v not in VAR: continue
        out.append(dict(variant=v, label=mode.lower(), mode=mode, dims=big_dims(r, 4, V, int(1.3 * V)), cut="PSQ_CUT", log=0, seed=int(r.integers(1 << 31)), threads=int(r.integers(2, 7)),
                        max_mom=100000, width=1.0, angle=30, flow=int(r.integers(0, 99999)), cost=5))
    return out

def run(c, g):
    R = Report(); dims = c["dims"]; N, ND = g.NC, g.ND; r = rng_of(c["seed"]); mode = c["mode"]
    g.setup(dims, c["threads"]); g.B.v_flow(c["flow"])
    lat = ref.Lattice(dims); V = lat.V
    U = ref.near_unit(r, V * ND, N, 0.2).reshape(V, ND, N, N)
    ctx = "%s %s dims %s %s max_mom %d width %g angle %d" % (g.variant, mode, dims, c["cut"], c["max_mom"], c["width"], c["angle"])
    kw = dict(cut=c["cut"], max_mom=c["max_mom"], max_t=1, width=c["width"], angle=c["angle"], definition="LOG_DEF" if c["log"] else "LINEAR_DEF",
              times=2 if g.variant == "nc3store" else 1)
    files, text, _ = rcuts.run_mode(g, U, mode, **kw)
    sig = "%s/%s/%s/%s/%d/%g/%d" % (g.variant, mode, c["cut"], dims, c["max_mom"], c["width"], c["angle"])
    try:
        o = rcuts.lists(g, mode, files, R, c, ctx)
    except rcuts.Layout as e:
        R.bad("layout/" + mode, "%s: %s" % (ctx, e)); o = None
    if o is None: return R.out()
    if mode == "CONFIGSPACE_GLUONS":
        R.near("times", o["t"], np.arange(dims[-1]), 0, ctx); R.ok(sig); return R.out()
    mom = o["mom"]
    if mode != "NONEXCEPTIONAL":
        D = ND - 1 if mode == "INSTANTANEOUS_GLUONS" else ND
        rcuts.check_list(R, "list/" + c["cut"].lower(), mom, dims, D, False, c["cut"], c["max_mom"], c["width"], c["angle"], D, ctx)
    else:
        for v in mom:
            if (2 * abs(v) > np.array(dims)).any(): R.bad("nonexceptional/zone", "%s: %s is outside the zone" % (ctx, v)); break
    R.ok(sig)
    for k in ("A", "a", "b"):
        if k in o and not np.isfinite(o[k]).all(): R.bad("finite/" + mode, "%s: values that are not finite" % ctx)
    # values stand at the position of their momentum: the field file against the propagators made from the same links
    if mode == "FIELDS" and len(mom):
        A = o["A"]; p = rcuts.hatp(dims, mom); ps = (p * p).sum(1); z = ps < 1e-13; ips = np.where(z, 1, 1 / np.where(z, 1, ps))
        G = np.einsum("pmab,pnab->pmn", A, A.conj()).real
        L = np.einsum("pm,pn,pmn->p", p, p, G) * ips; t = np.einsum("pmm->p", G) - L; D1 = N * N - 1
        for m2 in ("GLUON_PROPS", "SMEARED_GLUONS", "EXCEPTIONAL"):
            f2, _, _ = rcuts.run_mode(g, U, m2, **kw)
            try: o2 = rcuts.lists(g, m2, f2, R, c, ctx)
            except rcuts.Layout as e: R.bad("layout/" + m2, "%s: %s" % (ctx, e)); continue
            if o2 is None: continue
            ix = {tuple(m): k for k, m in enumerate(mom)}
            if set(ix) != {tuple(m) for m in o2["mom"]}:
                R.bad("list/modes", "%s: %s and FIELDS list different momenta" % (ctx, m2)); continue
            w = t if m2 != "EXCEPTIONAL" else np.einsum("pmm->p", G)
            w = w * np.where(z, 2.0 / (D1 * ND * V), 2.0 / (D1 * (ND - 1) * V))
            k = np.array([ix[tuple(m)] for m in o2["mom"]])
            R.near("position/" + m2.lower(), o2["a"], w[k], 1e-9, ctx, scale=abs(w).max())
            if m2 == "SMEARED_GLUONS": R.near("position/unsmeared copy", o2["b"], o2["a"], 1e-9, ctx, scale=abs(w).max())
    return R.out()
