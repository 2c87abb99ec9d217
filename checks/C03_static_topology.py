"""Static potential and topological charge correlators against definitions
evaluated in numpy on the same links; files decoded byte by byte."""
import re, numpy as np
from common import *
import ref, rsmear, rcuts
PROP = "C03"; LEVEL = "exploration"
RULE = ("random fields (hot, warm, smooth) on random unequal even and odd extents 2..5, every mode (static potential, topological "
        "correlator, susceptibility slabs, moments), with and without FFTW and smearing between measurements, four momentum "
        "cuts, 1..6 threads; distinct by variant, mode, cut, extents, field")
ASSUMPTIONS = ["loops and charge densities come from the numpy reference; agreement to 1e-10 of the largest value",
               "a direction of even length has its midpoint slice left out of the moments, as in the code's documentation",
               "vectors within 1e-9 of the edge of a cut may be listed or not"]
MIN_SIGS = 40
VAR = ["nc3", "nc2", "nc4gsl", "nc3nofft", "nc2nofft", "nc4", "nc5nd3", "nc3nd3"]
BUILDS = VAR
MODES = ["STATIC_POTENTIAL", "TOPOLOGICAL_CORRELATOR", "TOPOLOGICAL_SUSCEPTIBILITY", "TOPOLOGICAL_MOMENTS"]
CUTS = ["HYPERCUBIC_CUT", "PSQ_CUT", "CYLINDER_CUT", "CYLINDER_AND_CONICAL_CUT"]

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []
    for v in VAR:
        N, ND = ncnd(v)
        for mode in MODES:
            if ND != 4 and mode != "STATIC_POTENTIAL": continue
            for k in range(5 if tier == "quick" else 25):
                d = dims_of(r, ND, 2, 5, 260 if "nofft" in v or v == "nc4" else 400)
                if mode == "TOPOLOGICAL_MOMENTS" and k == 1: d = [2, 2, 2, 18]; r.shuffle(d)
                if mode == "TOPOLOGICAL_MOMENTS" and k == 2: d = [2, 17, 2, 3]; r.shuffle(d)
                out.append(dict(variant=v, label=mode.lower(), mode=mode, dims=[int(x) for x in d], cut=CUTS[(k + int(r.integers(4))) % 4],
                    kind=["hot", "warm", "smooth"][int(r.integers(3))], seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 7)),
                    max_mom=int(r.integers(0, 12)), max_t=int(r.integers(2, 6)) if mode == "STATIC_POTENTIAL" else int(r.integers(2, 4)),
                    width=float(r.uniform(0.2, 2.0)), angle=int(r.integers(5, 90)), smear=int(k % 3 == 2), flow=int(r.integers(0, 9999))))
    for v, V, mode in (("nc2", 9000, "TOPOLOGICAL_CORRELATOR"), ("nc3", 9000, "TOPOLOGICAL_SUSCEPTIBILITY"), ("nc2", 9000, "TOPOLOGICAL_MOMENTS"), ("nc2", 2500, "STATIC_POTENTIAL")):
        out.append(dict(variant=v, label=mode.lower(), mode=mode, dims=big_dims(r, 4, V, int(1.3 * V)), cut="PSQ_CUT", kind="warm", seed=int(r.integers(1 << 31)), threads=int(r.integers(2, 7)),
                        max_mom=10, max_t=3, width=1.0, angle=30, smear=0, flow=int(r.integers(0, 9999)), cost=4))
    return out

def corr_static(lat, U, t):
    """tr[P(x+r) P(x)^dag] and tr P(x+r) conj tr P(x) summed over space, averaged over time; arrays over spatial sites"""
    T = lat.ND - 1; dims = lat.dims; N = U.shape[-1]
    W = np.tile(np.eye(N, dtype=complex), (lat.V, 1, 1)); i = np.arange(lat.V)
    for _ in range(t): W = W @ U[i, T]; i = lat.fw[T][i]
    sh = list(dims[::-1])                      # [T, ..., x]
    W = W.reshape(sh + [N, N]); nsp = len(dims) - 1
    ax = tuple(range(1, 1 + nsp)); res = 0; tt = 0
    a, b = [], []
    S = Spatial(dims)
    for r in S.all():
        Ws = np.roll(W, tuple(-x for x in r[::-1]), axis=ax)
        a.append((Ws * np.conj(W)).sum() / dims[T])
        b.append((np.trace(Ws, axis1=-2, axis2=-1) * np.conj(np.trace(W, axis1=-2, axis2=-1))).sum() / dims[T])
    return dict(zip(map(tuple, S.all()), a)), dict(zip(map(tuple, S.all()), b))

class Spatial:
    def __init__(self, dims): self.d = dims[:-1]
    def all(self):
        return [tuple(int(v) for v in x) for x in np.stack([a.ravel() for a in np.meshgrid(*[np.arange(L) for L in self.d], indexing="ij")], 1)]

def qcorr(lat, q):
    """sum_x q(x) q(x+r) for all r, as array indexed like sites"""
    A = q.reshape(lat.dims[::-1]); F = np.fft.fftn(A)
    return np.fft.ifftn(abs(F) ** 2).real.ravel()

def one(files, pat, R, key):
    m = [f for f in files if re.search(pat, f)]
    if len(m) != 1: R.bad(key, "expected one file matching %s among %s" % (pat, sorted(files))); return None
    return rcuts.Decoder(files[m[0]])

def run(c, g):
    R = Report(); dims = c["dims"]; N, ND = g.NC, g.ND; r = rng_of(c["seed"])
    g.setup(dims, c["threads"]); g.B.v_flow(c["flow"])
    lat = ref.Lattice(dims); U = ref.field(r, dims, N, c["kind"]); mode = c["mode"]
    sm = {}
    if c["smear"]:
        g.smalpha([0.1] * (ND - 1)); spatial = mode == "STATIC_POTENTIAL"
        sm = dict(smiters=1, smtype="SM_STOUT", smdir="SPATIAL_LINKS_ONLY" if spatial else "ALL_DIRECTIONS")
        sstep = lambda X: rsmear.step(lat, X, "STOUT", [0.1] * (ND - 1), ND - 1 if spatial else ND, False)[0]
    else: sstep = lambda X: X
    files, text, after = rcuts.run_mode(g, U, mode, cut=c["cut"], max_mom=c["max_mom"], max_t=c["max_t"], width=c["width"],
                                        angle=c["angle"], **sm)
    ctx = "%s %s dims %s %s max_mom %d max_t %d" % (g.variant, mode, dims, c["cut"], c["max_mom"], c["max_t"])
    la = (dims, c["cut"], c["max_mom"], c["width"], c["angle"])
    NORM = 1 / (64 * np.pi ** 2)
    flow = ".%d.bin" % c["flow"]
    try:
        if mode == "STATIC_POTENTIAL":
            U = sstep(U); D = one(files, r"STATPOT_SU%d_.*%s$" % (N, re.escape(flow)), R, "static/file")
            if D is None: return R.out()
            mom = D.mom(ND - 1)
            rcuts.check_list(R, "static/separations", mom, dims, ND - 1, True, c["cut"], c["max_mom"], c["width"], c["angle"], ND, ctx)
            T = D.u32(); R.near("static/times", T, c["max_t"] - 1, 0, ctx)
            for t in range(1, c["max_t"]):
                D.count(len(mom)); a = D.cplx(len(mom)); D.count(len(mom)); b = D.cplx(len(mom))
                wa, wb = corr_static(lat, U, t)
                idx = [tuple(int(v) % L for v, L in zip(m, dims)) for m in mom]
                sc = max(abs(np.array(list(wa.values()))).max(), 1)
                R.near("static/traced", a, np.array([wa[i] for i in idx]), 1e-10, ctx + " t=%d" % t, scale=sc)
                R.near("static/trtr", b, np.array([wb[i] for i in idx]), 1e-10, ctx + " t=%d" % t, scale=sc)
            D.end()
        else:
            meas = 0; Q2m = []; Qm = []
            if mode == "TOPOLOGICAL_SUSCEPTIBILITY": todo = range(0, c["max_t"])
            else: todo = range(1, c["max_t"])
            for m in todo:
                if m > 0: U = sstep(U)
                q = ref.gmunu(lat, U)[1] * NORM
                Q = q.sum(); cc = qcorr(lat, q); sc = max(cc.max(), 1e-3)
                if mode == "TOPOLOGICAL_CORRELATOR":
                    D = one(files, r"%sm%d$" % (re.escape(flow), m), R, "correlator/file")
                    E = one(files, r"%sm%d\.tcorr$" % (re.escape(flow), m), R, "correlator/tfile")
                    if D is None or E is None: return R.out()
                    mom = D.mom(ND)
                    rcuts.check_list(R, "correlator/separations", mom, dims, ND, True, c["cut"], c["max_mom"], c["width"], c["angle"], ND, ctx)
                    D.count(len(mom)); v = D.dbl(len(mom)); D.end()
                    R.near("correlator/values", v, cc[lat.index(mom.T)] if len(mom) else v, 1e-10, ctx, scale=sc)
                    n = E.u32(); ts = E.take("I", n); R.near("correlator/times", np.array(ts), np.arange(dims[-1]), 0, ctx)
                    E.count(n); ct = E.dbl(n); E.end()
                    R.near("correlator/slices", ct, cc.reshape(dims[-1], -1).sum(1), 1e-10, ctx, scale=sc)
                    R.near("correlator/sumrule", ct.sum(), Q * Q, 1e-9, ctx, scale=sc)
                    mm = re.search(r"\[QTOP\] Q %d (\S+) (\S+) (\S+)" % m, text)
                    if not mm: R.bad("correlator/printed", "no charge printed for measurement %d" % m)
                    else: R.near("correlator/printed", np.array([float(x) for x in mm.groups()]), np.array([Q, Q * Q, (q * q).sum()]), 1e-10, ctx)
                elif mode == "TOPOLOGICAL_SUSCEPTIBILITY":
                    for d in range(ND):
                        D = one(files, r"%s\.m%d\.tcorr_d%d$" % (re.escape(flow), m, d), R, "slab/file")
                        if D is None: return R.out()
                        n = D.u32(); ts = D.take("I", n); R.near("slab/times", np.array(ts), np.arange(dims[d]), 0, ctx)
                        D.count(n); v = D.dbl(n); D.end()
                        qs = np.array([q[lat.x[d] == k].sum() for k in range(dims[d])])
                        w = [np.mean([sum(qs[(t0 + j) % dims[d]] for j in range(T1)) ** 2 for t0 in range(dims[d])]) for T1 in range(1, dims[d] + 1)]
                        R.near("slab/values", v, np.array(w), 1e-10, ctx + " direction %d" % d, scale=sc)
                        R.near("slab/total", v[-1], Q * Q, 1e-10, ctx, scale=sc)
                else: Qm.append((q, cc))
            if mode == "TOPOLOGICAL_MOMENTS":
                from math import factorial
                for d in range(ND):
                    for nm, k in (("Qmoment", 0), ("Q2moment", 1)):
                        D = one(files, r"^%s_d%d\.%d\.bin$" % (nm, d, c["flow"]), R, "moments/file")
                        if D is None: return R.out()
                        n = D.u32(); R.near("moments/measurements", n, c["max_t"] - 1, 0, ctx)
                        for j in range(n):
                            D.count(12); v = D.dbl(12); f = Qm[j][k]; L = dims[d]
                            s = np.array([f[lat.x[d] == t].sum() for t in range(L)]); tt = np.arange(-((L - 1) // 2), (L - 1) // 2 + 1)
                            w = np.array([(1, 1, -1, -1)[a & 3] * (s[tt % L] * tt.astype(float) ** a).sum() / factorial(a) for a in range(12)])
                            scl = np.array([max((abs(s[tt % L]) * abs(tt).astype(float) ** a).sum() / factorial(a), 1e-12) for a in range(12)])
                            R.near("moments/%s" % nm, v / scl, w / scl, 1e-9, ctx + " direction %d" % d)
                        D.end()
    except rcuts.Layout as e:
        R.bad("layout/" + mode, "%s: %s; files %s" % (ctx, e, {k: len(v) for k, v in files.items()}))
    R.ok("%s/%s/%s/%s/%s/%d" % (g.variant, mode, c["cut"], dims, c["kind"], c["smear"]))
    return R.out()
