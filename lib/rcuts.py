"""Decoder for the correlator files and reference momentum cuts."""
import os, struct, tempfile, shutil
from ctypes import c_void_p, c_double
import numpy as np
from glu import P, Capture

NAMES = ["EXCEPTIONAL", "NONEXCEPTIONAL", "FIELDS", "SMEARED_GLUONS", "INSTANTANEOUS_GLUONS", "CONFIGSPACE_GLUONS",
         "GLUON_PROPS", "STATIC_POTENTIAL", "TOPOLOGICAL_CORRELATOR", "TOPOLOGICAL_MOMENTS", "TOPOLOGICAL_SUSCEPTIBILITY",
         "HYPERCUBIC_CUT", "PSQ_CUT", "CYLINDER_CUT", "CYLINDER_AND_CONICAL_CUT", "LINEAR_DEF", "LOG_DEF", "SM_NOSMEARING",
         "SM_APE", "SM_STOUT", "SM_LOG", "SM_HYP", "SM_HEX", "SM_HYL", "SM_WFLOW_STOUT", "ALL_DIRECTIONS", "SPATIAL_LINKS_ONLY"]

def run_mode(g, U, mode, cut="PSQ_CUT", max_mom=4, max_t=2, definition="LINEAR_DEF", angle=60, width=1.0,
             smdir="ALL_DIRECTIONS", smiters=0, smtype="SM_NOSMEARING", times=1):
    """-> {file name: bytes}, printed text, the links afterwards"""
    S = g.shim("cut"); S.z_cuts.argtypes = [c_void_p, c_void_p, c_double]
    e = lambda n: S.z_enum(NAMES.index(n))
    ip = np.array([e(mode), e(cut), max_mom, max_t, e(definition), angle, e(smdir), smiters, e(smtype)], dtype=np.int32)
    p = g.lat(U); T = tempfile.mkdtemp(prefix="glucut"); old = os.getcwd()
    try:
        os.chdir(T)
        if times > 1: os.makedirs("Local/Moments"); os.makedirs("Local/Wisdom")
        for k in range(times):          # the second run may use what the first one stored
            if k: g.set(p, U)
            with Capture(g.B) as cap: run_mode.status = S.z_cuts(p, P(ip), float(width))
            files = {f: open(f, "rb").read() for f in os.listdir(".") if os.path.isfile(f)}
            for f in files: os.unlink(f)
    finally:
        os.chdir(old); shutil.rmtree(T, ignore_errors=True)
    out = g.get(p); g.free(p)
    return files, cap.text, out

class Decoder:
    """sequential big-endian reader; running off the end is an error"""
    def __init__(self, b): self.b, self.o = b, 0
    def take(self, fmt, n):
        k = struct.calcsize(">" + fmt) * n
        if self.o + k > len(self.b): raise Layout("file ends at byte %d, %d more wanted" % (len(self.b), self.o + k - len(self.b)))
        v = struct.unpack(">%d%s" % (n, fmt), self.b[self.o:self.o + k]); self.o += k
        return v
    def u32(self): return self.take("I", 1)[0]
    def dbl(self, n): return np.array(self.take("d", n))
    def cplx(self, n): return self.dbl(2 * n).view(complex)
    def mom(self, DIR):
        n = self.u32()
        if n > 10_000_000: raise Layout("implausible list length %d" % n)
        v = np.array(self.take("i", n * (DIR + 1))).reshape(n, DIR + 1)
        if n and not (v[:, 0] == DIR).all(): raise Layout("momenta are not all %d dimensional" % DIR)
        return v[:, 1:]
    def count(self, want):
        n = self.u32()
        if n != want: raise Layout("a list of %d values for %d momenta" % (n, want))
        return n
    def end(self):
        if self.o != len(self.b): raise Layout("%d bytes left over" % (len(self.b) - self.o))

class Layout(Exception): pass

def candidates(dims, DIMS, space):
    """integer vectors of the Brillouin zone (or box) of the first DIMS directions"""
    ax = []
    for L in dims[:DIMS]:
        if space: ax.append(np.array([n if n <= L // 2 else n - L for n in range(L)]))
        else: ax.append(np.arange(-(L // 2), L - L // 2))
    gr = np.meshgrid(*ax, indexing="ij")
    return np.stack([a.ravel() for a in gr], 1)

def select(dims, DIMS, space, cut, max_mom, width, angle, small_dims=None):
    """-> vectors, mask of those the cut selects, mask of those on its edge.
    small_dims: over how many directions the smallest extent is taken"""
    n = candidates(dims, DIMS, space)
    small = min(dims[:(small_dims or DIMS)])
    rats = np.array([small / L for L in dims[:DIMS]])
    psq = ((rats * n) ** 2).sum(1); edge = np.zeros(len(n), bool)
    # no rounding where every extent in use is a power of two times the smallest: the caps are inclusive
    exact = ((n == 0) | (np.log2(rats) % 1 == 0)).all(1)
    def below(x, lim):
        nonlocal edge
        edge = edge | ((abs(x - lim) < 1e-9 * (1 + abs(lim))) & ~(exact & (lim == round(lim))))
        return x <= lim
    if cut == "HYPERCUBIC_CUT":
        m = below(abs(rats * n).max(1), np.sqrt(max_mom))
        return n, m, edge
    m = below(psq, max_mom)
    if cut in ("CYLINDER_CUT", "CYLINDER_AND_CONICAL_CUT"):
        k = 2 * np.sin(np.pi * n / np.array(dims[:DIMS]))
        best = np.zeros(len(n), bool); bedge = np.zeros(len(n), bool)
        lim = 2 * np.pi * width / small
        norm = np.sqrt((k ** 2).sum(1))
        for s in range(2 ** DIMS):
            d = np.array([1.0 if s >> b & 1 else -1.0 for b in range(DIMS)])
            par = k @ d / DIMS
            dist = np.sqrt(((k - par[:, None] * d) ** 2).sum(1))
            ok = dist <= lim; ed = abs(dist - lim) < 1e-7
            if cut == "CYLINDER_AND_CONICAL_CUT":
                with np.errstate(invalid="ignore", divide="ignore"):
                    th = np.arccos(np.clip(k @ d / np.sqrt(DIMS) / norm, -1, 1))
                lima = np.deg2rad(angle)
                oka = (th <= lima) | (norm < 1e-9)
                ed = (ed & (oka | (abs(th - lima) < 1e-6))) | (ok & (abs(th - lima) < 1e-6))
                ok = ok & oka
            best |= ok; bedge |= ed
        edge = edge | (bedge & m)
        m = m & best
    return n, m, edge

def check_list(R, key, got, dims, DIMS, space, cut, max_mom, width, angle, small_dims=None, ctx=""):
    """the listed vectors are exactly the selected ones, once each; edge ones may go either way"""
    n, m, edge = select(dims, DIMS, space, cut, max_mom, width, angle, small_dims)
    g = [tuple(int(a) for a in v) for v in got]
    R.ok()
    if len(set(g)) != len(g):
        R.bad(key + "/twice", "a vector is listed more than once %s" % ctx); return
    must = {tuple(int(a) for a in v) for v in n[m & ~edge]}
    may = {tuple(int(a) for a in v) for v in n[m | edge]}
    if must - set(g): R.bad(key + "/missing", "not listed: %s %s" % (sorted(must - set(g))[:5], ctx))
    if set(g) - may: R.bad(key + "/extra", "listed though not selected: %s %s" % (sorted(set(g) - may)[:5], ctx))
    # closed under reflection (as a momentum modulo the lattice)
    mod = lambda v: tuple(a % L for a, L in zip(v, dims))
    gs = {mod(v) for v in g}
    if not edge.any() and all(not space for _ in [0]):
        bad = [v for v in g if mod([-a for a in v]) not in gs]
        if bad: R.bad(key + "/reflection", "the reflections of %s are missing %s" % (bad[:4], ctx))

def afields(lat, U, log=False, spatial=False):
    """A_mu(p) = e^{ip_mu/2} sum_x e^{ipx} A_mu(x), indexed by lattice site (n mod L); spatial: every time slice on its own"""
    import ref
    V, ND, N, _ = U.shape; dims = lat.dims
    A = ref.log_su(U.reshape(-1, N, N)) if log else (U - np.conj(np.swapaxes(U, -1, -2))).reshape(-1, N, N) / 2j
    A = A.reshape(V, ND, N, N)
    A = A - np.einsum("...ii", A)[..., None, None] / N * np.eye(N)
    sh = list(dims[::-1]); B = A.reshape(sh + [ND, N, N])
    ax = tuple(range(1 if spatial else 0, ND))
    n = np.prod([sh[a] for a in ax])
    F = np.fft.ifftn(B, axes=ax) * n
    return F.reshape(V, ND, N, N)

def hatp(dims, n):
    return 2 * np.sin(np.pi * np.asarray(n) / np.asarray(dims)[:np.asarray(n).shape[-1]])

def lists(g, mode, files, R, c, ctx):
    """decodes the file of a gluon mode -> (name, dict); complains about the layout"""
    ND, NC, dims = g.ND, g.NC, c["dims"]
    pre = dict(EXCEPTIONAL="MOMgg", NONEXCEPTIONAL="spboucaud", FIELDS="MATS", SMEARED_GLUONS="G2_G2SM",
               INSTANTANEOUS_GLUONS="G2spG2t", CONFIGSPACE_GLUONS="CSPACE", GLUON_PROPS="G2F2")[mode]
    cut = c["cut"] if mode != "NONEXCEPTIONAL" else "PSQ_CUT"
    tag = dict(HYPERCUBIC_CUT="cutHYP", PSQ_CUT="cutPSQ", CYLINDER_CUT="cutCYL_w%g" % c["width"], CYLINDER_AND_CONICAL_CUT="cutCON_%d" % c["angle"])[cut]
    df = "LOG" if c["log"] else "LIN"
    nm = "%s_SU%d_%s_" % (pre, NC, "x".join(map(str, dims)))
    nm += "%s.%d.bin" % (df, c["flow"]) if mode == "CONFIGSPACE_GLUONS" else "%d_%s_SINMOM_%s.%d.bin" % (c["max_mom"], tag, df, c["flow"])
    if sorted(files) != [nm]:
        R.bad("file/" + mode, "%s: wrote %s instead of %s" % (ctx, sorted(files), nm)); return None
    D = Decoder(files[nm]); o = {}
    if mode == "CONFIGSPACE_GLUONS":
        n = D.u32(); o["t"] = np.array(D.take("I", n)); D.count(n); o["g"] = D.dbl(n)
    else:
        o["mom"] = m = D.mom(ND - 1 if mode == "INSTANTANEOUS_GLUONS" else ND); n = len(m)
        D.count(n)
        if mode == "FIELDS": o["A"] = D.cplx(n * ND * NC * NC).reshape(n, ND, NC, NC)
        else: o["a"] = D.dbl(n); D.count(n); o["b"] = D.dbl(n)
    D.end()
    return o
