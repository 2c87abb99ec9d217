"""Plaquettes, link traces, Polyakov loops of the real library compared with
the definition evaluated in numpy on the same links."""
import re, numpy as np
from common import *
import ref
from glu import P, Capture
PROP = "O01"; LEVEL = "exploration"
RULE = ("random fields (unit, hot, warm, smooth, pure gauge, abelian, centre) on random unequal extents 2..6 for each "
        "compiled colour count, dimension and instruction set, 1..8 threads; distinct by variant, extents, field kind; the "
        "unit field is trivial and not counted")
ASSUMPTIONS = ["traces are compared to 1e-11 relative to the largest value"]
MIN_SIGS = 40
KINDS = ["hot", "hot", "warm", "smooth", "gaugeunit", "diag", "center", "unit", "hot"]
VAR = ["nc3", "nc2", "nc4", "nc5nd3", "nc3nosse", "nc2nosse", "nc3nd3", "nc2nd3"]
BUILDS = VAR

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []
    for v in VAR:
        ND = ncnd(v)[1]
        for k in range(14 if tier == "quick" else 80):
            out.append(dict(variant=v, label="loops", dims=dims_of(r, ND, 2, 6, 400), kind=KINDS[k % len(KINDS)],
                            seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 9))))
        if v in ("nc2", "nc3", "nc5nd3"):
            out.append(dict(variant=v, label="loops", dims=big_dims(r, ND), kind="hot", seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 9))))
    return out

def run(c, g):
    R = Report(); dims = c["dims"]; ND, N = g.ND, g.NC; r = rng_of(c["seed"])
    g.setup(dims, c["threads"]); S = g.shim("obs")
    lat = ref.Lattice(dims); U = ref.field(r, dims, N, c["kind"]); p = g.lat(U)
    from ctypes import c_void_p
    for f in ("z_plaqs", "z_links", "z_poly", "z_th"): getattr(S, f).argtypes = [c_void_p, c_void_p]
    S.z_gauge.argtypes = [c_void_p]
    ctx = "%s dims %s %s" % (g.variant, dims, c["kind"])
    o = np.zeros(16); S.z_plaqs(p, P(o))
    a, s, t = ref.plaquettes(lat, U)
    for j, (n, w) in enumerate((("total", a), ("spatial", s), ("temporal", t), ("average", a), ("spatial2", s), ("temporal2", t))):
        R.near("plaquette/" + n, o[j], w, 1e-11, ctx)
    o = np.zeros(16); S.z_links(p, P(o))
    la, ls, lt = ref.link_traces(lat, U)
    for j, (n, w) in enumerate((("total", la), ("spatial", ls), ("temporal", lt), ("average", la), ("spatial2", ls),
                                ("temporal2", lt), ("individual", la))):
        R.near("links/" + n, o[j], w, 1e-11, ctx)
    R.near("links/maximum", o[7], max(0.0, ref.tr(U).real.max()), 1e-11, ctx)
    o = np.zeros(2 * ND); S.z_poly(p, P(o))
    pol = [ref.polyakov(lat, U, mu).mean() for mu in range(ND)]
    for mu in range(ND): R.near("polyakov/dir%d" % mu, o[2 * mu] + 1j * o[2 * mu + 1], pol[mu], 1e-11, ctx)
    o = np.zeros(1 + 2 * ND); S.z_th(p, P(o))
    R.near("plaquette/threaded", o[0] / (N * g.V * ND * (ND - 1) / 2), a, 1e-11, ctx)
    for mu in range(ND): R.near("polyakov/threaded%d" % mu, o[1 + 2 * mu] + 1j * o[2 + 2 * mu], pol[mu], 1e-11, ctx)
    with Capture(g.B) as cap: S.z_gauge(p)
    T = cap.text
    def val(pat):
        m = re.search(pat, T)
        if not m: R.bad("printed/missing", "no line matching %s in %s" % (pat, T[:800])); return np.nan
        return float(m.group(1))
    R.near("printed/plaquette", [val(r"\[PLAQS SU\(\d+\)\]\s*:: (\S+)"), val(r"\[PLAQS SU\(\d+\) spatial\]\s*:: (\S+)"),
                                 val(r"\[PLAQS SU\(\d+\) temporal\]\s*:: (\S+)")], [a, s, t], 1e-11, ctx)
    R.near("printed/links", [val(r"\[LINKS SU\(\d+\)\]\s*:: (\S+)"), val(r"\[LINKS SU\(\d+\) spatial\]\s*:: (\S+)"),
                             val(r"\[LINKS SU\(\d+\) temporal\]\s*:: (\S+)")], [la, ls, lt], 1e-11, ctx)
    for mu in range(ND):
        m = re.search(r"\[POLY SU\(\d+\) DIR_%d\] \( (\S+) , (\S+) \) , MODULUS :: (\S+)" % mu, T)
        if not m: R.bad("printed/missing", "no Polyakov line %d" % mu); continue
        w = pol[mu] / N
        R.near("printed/polyakov", [float(m.group(1)), float(m.group(2)), float(m.group(3))],
               [w.real, w.imag, abs(w)], 2e-6, ctx, scale=max(abs(w), 1e-9))
    m = re.search(r"BADLINKS :: (\d+) out of (\d+)", T)
    if not m or int(m.group(1)) != 0 or int(m.group(2)) != g.V * ND:
        R.bad("printed/unitarity", "%s: special unitary links, report: %s" % (ctx, m and m.group(0)))
    g.free(p)
    R.ok("%s %s %s" % (g.variant, dims, c["kind"]) if c["kind"] != "unit" else None)
    return R.out()
