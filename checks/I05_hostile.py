"""Hostile bytes in configuration files, input files and generator states, watched by sanitizers."""
import ctypes, os, re, shutil, struct, subprocess, tempfile
import numpy as np
from common import *
import ref, rio, prog, lattio, fw, build
from glu import P, Capture
PROP = "I05"; LEVEL = "exploration"
RULE = ("valid files of every readable format, of input files and of saved generator states are mutated where a reader parses them (numbers and words of the headers replaced by extreme, overlong, empty, non-numeric or contradicting ones, lengths, magic numbers, flags and extents overwritten, "
        "records repeated, dropped, reordered or nested, lines without ends, bytes flipped, inserted and removed, cuts, pieces of other formats) and read by read_file, get_input_data, the restart of the generators and the program, all compiled with AddressSanitizer and UndefinedBehaviorSanitizer; "
        "every read has to return, without a report, and must leave the library able to read the valid file; a coverage guided fuzzer (clang, no OpenMP) extends the same; distinct by variant, format, kind of mutation, place and outcome")
ASSUMPTIONS = ["memory is limited to 40 MB per lattice, so that extents a machine could hold but a file cannot fill need not be waited for"]
MIN_SIGS = 400
TIMEOUT = 180
SAN = ["nc3_san", "nc2_san", "nc4_san", "nc5nd3_san"]
BUILDS = SAN
HEADS = [1, 2, 3, 4, 5, 6, 7, 8, 9]
MEM = 40 << 20

def readable(N, ND): return [f for f in rio.FORMATS if (f != "CERN" or (N, ND) == (3, 4)) and (f != "NERSC_SMALL" or N < 4)] + ["BQCD", "LIME", "JLQCD"]

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; rep = 2 if tier == "quick" else 30
    for k in range(rep):
        for v in SAN:
            for f in readable(*ncnd(v)): out.append(dict(variant=v, label="config/" + f, fmt=f, n=150 if tier == "quick" else 400, seed=int(r.integers(1 << 31))))
            for j in range(3): out.append(dict(variant=v, label="input", n=300 if tier == "quick" else 800, seed=int(r.integers(1 << 31))))
            for j in range(1): out.append(dict(variant=v, label="state", n=60 if tier == "quick" else 200, seed=int(r.integers(1 << 31))))
            out.append(dict(variant=v, label="program", n=40 if tier == "quick" else 120, seed=int(r.integers(1 << 31))))
    for k in range(1 if tier == "quick" else 4):
        for t in FUZZ: out.append(dict(variant="nc3_san", label="fuzz/" + t, target=t, runs=4000 if tier == "quick" else 400000, seed=int(r.integers(1, 1 << 31)), timeout=240 if tier == "quick" else 1500))
    return out
FUZZ = ["1", "3", "5", "6", "8", "9", "2", "input"]

NUMS = ["0", "1", "-1", "2", "3", "5", "15", "16", "17", "127", "128", "255", "256", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999",
        "1e400", "-1e400", "nan", "inf", "-inf", "1e-400", "0x7fffffff", "ffffffff", "fffffffffffffffff", "g", "", " ", "-", "+", ".", "1.5", "3 3", "%s", "%n%n%n", "4.0", "1" * 63, "1" * 64, "1" * 300, "9" * 5000, "A" * 40, "A" * 127, "A" * 128, "A" * 129, "A" * 256, "A" * 1024, "A" * 70000, "0" * 4096 + "4", "\0", "\xff", "\n", "=", "==", "<", ">", "</", "<>", "\r"]
INTS = [0, 1, 2, 3, 5, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xfffffffffffffff8, 0xffffffffffffff70, 1 << 40]

def token(r, h):
    """one word or number of a text replaced"""
    m = list(re.finditer(rb"[^\s<>=,/\0]+", h))
    if not m: return h, "token"
    t = m[int(r.integers(len(m)))]; return h[:t.start()] + NUMS[int(r.integers(len(NUMS)))].encode("latin1") + h[t.end():], "token"
def number(r, h):
    m = list(re.finditer(rb"(?<![\w.])[-+]?[0-9a-f]*[0-9][0-9a-f.]*", h))
    if not m: return token(r, h)
    t = m[int(r.integers(len(m)))]; return h[:t.start()] + NUMS[int(r.integers(len(NUMS)))].encode("latin1") + h[t.end():], "number"
def separator(r, h):
    m = list(re.finditer(rb"[\s<>=,/\0]+", h))
    if not m: return h, "separator"
    t = m[int(r.integers(len(m)))]; return h[:t.start()] + [b"", b" ", b"\n", b"=", b"<", b">", b"\0", b" " * 3000, b"\n" * 5000, b"==", b"></", b"\t"][int(r.integers(12))] + h[t.end():], "separator"
def line(r, h):
    L = h.split(b"\n"); i = int(r.integers(len(L))); k = int(r.integers(5))
    if k == 0: del L[i]
    elif k == 1: L.insert(i, L[int(r.integers(len(L)))])
    elif k == 2: L = L[:i] + [L[i]] * int(r.choice([2, 10, 300])) + L[i:]
    elif k == 3: L[i] = L[i] * int(r.choice([2, 30, 1000]))
    else: j = int(r.integers(len(L))); L[i], L[j] = L[j], L[i]
    return b"\n".join(L), "line"
def bits(r, h):
    m = bytearray(h)
    for _ in range(int(r.choice([1, 1, 2, 8]))):
        if m: m[int(r.integers(len(m)))] ^= 1 << int(r.integers(8))
    return bytes(m), "bits"
def bytes_(r, h):
    m = bytearray(h)
    for _ in range(int(r.choice([1, 2, 5]))):
        if m: m[int(r.integers(len(m)))] = int(r.choice([0, 255, 10, 32, 60, 62, 61, 127, 48, 57, 45, int(r.integers(256))]))
    return bytes(m), "bytes"
def insert(r, h):
    i = int(r.integers(len(h) + 1)); return h[:i] + [b"\0" * 9, b"A" * 500, bytes(r.integers(0, 256, 40, dtype=np.uint8)), b"9" * 400, b"<" * 200, b"=" * 70, b"\n" * 2000][int(r.integers(7))] + h[i:], "insert"
def remove(r, h):
    if len(h) < 2: return h, "remove"
    i, j = sorted(int(x) for x in r.integers(0, len(h) + 1, 2)); j = min(j, i + int(r.choice([1, 4, 40, 1000]))); return h[:i] + h[j:], "remove"
def cut(r, h): return h[:int(r.integers(len(h) + 1))], "cut"
def ints(r, h):
    """a whole integer of a binary header"""
    w = int(r.choice([1, 2, 4, 8])); n = max(0, len(h) - w); i = int(r.integers(n + 1)) // (w if r.random() < 0.7 else 1) * (w if r.random() < 0.7 else 1); x = INTS[int(r.integers(len(INTS)))] & ((1 << 8 * w) - 1)
    return h[:i] + x.to_bytes(w, "big" if r.random() < 0.6 else "little") + h[i + w:], "ints"
def words(r, h):
    """one of the leading words"""
    i = 4 * int(r.integers(0, min(12, max(1, len(h) // 4)))); x = INTS[int(r.integers(len(INTS)))] & 0xffffffff; return h[:i] + x.to_bytes(4, "big" if r.random() < 0.6 else "little") + h[i + 4:], "words"
def double(r, h):
    i = 4 * int(r.integers(0, max(1, len(h) // 4))); x = float(r.choice([0.0, -1.0, 1e308, np.inf, -np.inf, np.nan, 3.0, 1e-320, 2e9])); return h[:i] + struct.pack(">d" if r.random() < 0.5 else "<d", x) + h[i + 8:], "double"

def records(b):
    o = 0; out = []
    while o + 144 <= len(b):
        n, typ = struct.unpack(">Q128s", b[o + 8:o + 144]); out.append([b[o:o + 144], b[o + 144:o + 144 + n + (-n % 8)]]); o += 144 + n + (-n % 8)
    return out
def lime(r, b):
    """the records of a LIME file"""
    L = records(b); i = int(r.integers(len(L))); k = int(r.integers(13)); h = L[i][0]
    put = lambda o, x: h[:o] + x + h[o + len(x):]
    if k == 0: del L[i]
    elif k == 1: L.insert(int(r.integers(len(L) + 1)), L[i])
    elif k == 2: j = int(r.integers(len(L))); L[i], L[j] = L[j], L[i]
    elif k == 3: L[i] = [put(8, (INTS[int(r.integers(len(INTS)))] & (1 << 64) - 1).to_bytes(8, "big")), L[i][1]]
    elif k == 4: L[i] = [put(8, max(0, len(L[i][1]) + int(r.choice([-9, -8, -1, 1, 7, 8, 144, 4096]))).to_bytes(8, "big")), L[i][1]]
    elif k == 5: L[i] = [put(16, [b"A" * 128, b"ildg-binary-data" + b"\0", b"xlf-info\0", b"\0" * 128, b"ildg-format\0", b"scidac-checksum\0", b"ildg-binary-dataX", b"scidac-private-file-xml\0", b"ildg-format" + b"x" * 117][int(r.integers(9))]), L[i][1]]
    elif k == 6: L[i] = [put(int(r.integers(8)), bytes([int(r.integers(256))])), L[i][1]]
    elif k == 7: L[i] = [h, fuzztext(r, L[i][1])[0] if len(L[i][1]) < 5000 else L[i][1]]
    elif k == 8: x = fuzztext(r, L[i][1])[0] if len(L[i][1]) < 5000 else L[i][1][:int(r.integers(len(L[i][1])))]; L[i] = [put(8, len(x).to_bytes(8, "big")), x + b"\0" * (-len(x) % 8)]
    elif k == 9: L = L[:i] + [[struct.pack(">IHBBQ128s", 0x456789ab, 1, 0, 0, 0, b"x"), b""]] * int(r.choice([1, 20, 1000])) + L[i:]
    elif k == 10: x = bytes(r.integers(32, 127, int(r.choice([1, 100, 5000, 70000])), dtype=np.uint8)); L[i] = [put(8, len(x).to_bytes(8, "big")), x + b"\0" * (-len(x) % 8)]
    elif k == 11: x = b"<?xml?><ildgFormat><lx>" + b"<a>" * int(r.choice([1, 50, 3000])) + NUMS[int(r.integers(len(NUMS)))].encode("latin1"); L[i] = [put(8, len(x).to_bytes(8, "big")), x + b"\0" * (-len(x) % 8)]
    else: L[i] = [put(16, bytes(r.integers(0, 256, 128, dtype=np.uint8))), L[i][1]]
    return b"".join(a + d for a, d in L), "lime%d" % k
TEXT = [token, number, number, number, separator, line, bits, bytes_, insert, remove, cut]
BIN = [ints, words, words, words, double, bits, bytes_, insert, remove, cut]
def fuzztext(r, h): return TEXT[int(r.integers(len(TEXT)))](r, h)
def fuzzbin(r, h): return BIN[int(r.integers(len(BIN)))](r, h)

def head_length(fmt, b, ND):
    if fmt.startswith("NERSC"): return b.index(b"END_HEADER\n") + 11
    if fmt in ("ILDG", "SCIDAC", "BQCD", "LIME"): return len(b)
    return {"MILC": struct.calcsize(">i%di64siII" % ND), "HIREP": 4 * (ND + 1) + 8, "CERN": 4 * ND + 8, "JLQCD": 64}[fmt]

def mutate(r, fmt, b, ND):
    n = head_length(fmt, b, ND); h, p = b[:n], b[n:]; names = []
    for _ in range(int(r.choice([1, 1, 1, 2, 3]))):
        if fmt.startswith("NERSC"): h, k = fuzztext(r, h)
        elif fmt in ("ILDG", "SCIDAC", "BQCD", "LIME"):
            if r.random() < 0.8 and h[:4] == b"\x45\x67\x89\xab":
                try: h, k = lime(r, h)
                except Exception: h, k = fuzzbin(r, h)
            else: h, k = fuzzbin(r, h)
        else: h, k = fuzzbin(r, h)
        names.append(k)
    if r.random() < 0.15:
        p = [b"", p[:int(r.integers(len(p) + 1))], p + b"x" * 100, bytes(r.integers(0, 256, max(1, len(p)), dtype=np.uint8))][int(r.integers(4))] if p else p; names.append("payload")
    return h + p, "+".join(names)

def run(c, g):
    R = Report(); r = rng_of(c["seed"]); N, ND = g.NC, g.ND; lab = c["label"]
    os.environ["GLU_VERIF_BYTES"] = str(MEM); old = os.getcwd(); wd = tempfile.mkdtemp(prefix="glui05"); os.chdir(wd)
    try:
        if lab.startswith("config/"): return config(R, c, g, r, wd, N, ND)
        if lab == "input": return inputs(R, c, g, r, wd, ND)
        if lab == "state": return state(R, c, g, r, wd)
        if lab == "program": return program(R, c, g, r, wd, N, ND)
        return fuzz(R, c, g, r, wd, N, ND)
    finally: os.chdir(old); shutil.rmtree(wd, ignore_errors=True)

def config(R, c, g, r, wd, N, ND):
    fmt = c["fmt"]; path = os.path.join(wd, "conf"); head = rio.HEADER[fmt.split("_")[0]]
    dims = [2] * ND if fmt in ("CERN", "BQCD") else dims_of(r, ND, 1, 4, 30); U = ref.field(r, dims, N, "hot")
    while fmt == "NERSC_SMALL" and rio.short_conditioning(U) > 1e6: U = ref.field(r, dims, N, "hot")
    others = [rio.encode(f, dims, U, "D", "big") for f in readable(N, ND) if f != "CERN" or all(d % 2 == 0 for d in dims)]
    def get(data, hd, start):
        open(path, "wb").write(data); S = lattio.setup(g); g.setup(start, int(r.integers(1, 4)), 3, hd); g.B.v_flow(77); st = np.zeros(1, np.int32)
        with Capture(g.B) as cap: q = S.u_read(path.encode(), hd, P(st))
        if not q: return None
        d = np.zeros(ND, np.int32); g.B.v_getdims(P(d)); V = int(np.prod([int(x) for x in d])); got = g.B.v_volume() if hasattr(g.B, "v_volume") else V
        g.dims = [int(x) for x in d]; g.V = V; A = g.get(q); g.free(q); return A
    fds = None
    for k in range(c["n"]):
        prec = "F" if r.random() < 0.2 and fmt not in ("HIREP", "JLQCD", "CERN") else "D"; e = "little" if r.random() < 0.3 and (fmt.startswith("NERSC") or fmt == "MILC") else "big"
        b = rio.encode(fmt, dims, U, prec, e); hd = head
        if r.random() < 0.05: o = others[int(r.integers(len(others)))]; i = int(r.integers(len(b) + 1)); j = int(r.integers(len(o) + 1)); m, what = b[:i] + o[j:], "splice"
        elif r.random() < 0.05: hd = int(r.choice(HEADS)); m, what = b, "foreign"
        elif r.random() < 0.02: m, what = bytes(r.integers(0, 256, int(r.choice([0, 1, 3, 4, 7, 100, 5000])), dtype=np.uint8)), "noise"
        else: m, what = mutate(r, fmt, b, ND)
        A = get(m, hd, dims if hd == 7 else [7] * ND); R.ok("%s/%s/%s/%s" % (g.variant, fmt, what if "+" not in what else "several", "read" if A is not None else "refused")); R.obs["read" if A is not None else "refused"] = R.obs.get("read" if A is not None else "refused", 0) + 1
        if k % 15 == 14:
            A = get(rio.encode(fmt, dims, U, "D", "big"), head, dims if head == 7 else [7] * ND)
            if A is None or A.shape != U.shape or not abs(A - U).max() < (1e-12 if fmt != "NERSC_SMALL" else 1e-12 * rio.short_conditioning(U)): R.bad("afterwards/" + fmt, "%s %s dims %s: the valid file can no longer be read after %d damaged ones" % (g.variant, fmt, dims, k))
    return R.out()

def make_input(r, ND): 
    import sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import I06_settings as I
    return I.layout(r, list(I.make(r, ND).items()), "plain" if r.random() < 0.7 else str(r.choice(["indent", "crlf"]))).encode("latin1")

def inputs(R, c, g, r, wd, ND):
    S = g.shim("inp"); S.n_read.argtypes = [ctypes.c_char_p] + [ctypes.c_void_p] * 3; path = os.path.join(wd, "in.txt"); v = np.zeros(100); a = np.zeros(4096, np.uint8); b = np.zeros(4096, np.uint8)
    for k in range(c["n"]):
        t = make_input(r, ND); names = []
        for _ in range(int(r.choice([0, 1, 1, 2, 4]))): t, w = fuzztext(r, t); names.append(w)
        if r.random() < 0.02: t, names = bytes(r.integers(0, 256, int(r.choice([0, 1, 7, 4000])), dtype=np.uint8)), ["noise"]
        if r.random() < 0.02: t, names = t * 40 if r.random() < 0.5 else b"A = 1\n" * 20000, ["long"]
        open(path, "wb").write(t)
        with Capture(g.B): st = S.n_read(path.encode(), P(v), P(a), P(b))
        R.ok("%s/input/%s/%s" % (g.variant, names[0] if len(names) == 1 else "several" if names else "none", st >= 0)); R.obs["input accepted" if st >= 0 else "input refused"] = R.obs.get("input accepted" if st >= 0 else "input refused", 0) + 1
    return R.out()

def state(R, c, g, r, wd):
    S = g.shim("rng"); S.r_draw.argtypes = [ctypes.c_void_p, ctypes.c_long, ctypes.c_uint]
    for f in ("r_init", "r_write"): getattr(S, f).argtypes = [ctypes.c_char_p]
    T = int(r.integers(1, 5)); g.setup([2] * g.ND, T, 7); f = os.path.join(wd, "s.rand")
    with Capture(g.B): S.r_init(None); S.r_write(f.encode())
    good = open(f, "rb").read(); z = np.zeros(300)
    for k in range(c["n"]):
        m, w = (fuzzbin(r, good[:200]) if r.random() < 0.7 else fuzztext(r, good[:400]))
        if r.random() < 0.7: m += good[200 if r.random() < 0.7 else 400:]
        if r.random() < 0.1: m, w = good + good, "twice"
        open(f, "wb").write(m); g.setup([2] * g.ND, int(r.integers(1, 5)), 7)
        with Capture(g.B): st = S.r_init(f.encode())
        if st == 0:
            for t in range(g.B.v_threads() if hasattr(g.B, "v_threads") else 1): S.r_draw(P(z), 300, t)
        R.ok("%s/state/%s/%s" % (g.variant, w, st)); R.obs["generator states"] = R.obs.get("generator states", 0) + 1
    return R.out()

def program(R, c, g, r, wd, N, ND):
    fmts = readable(N, ND)
    for k in range(c["n"]):
        fmt = str(r.choice(fmts)); dims = [2] * ND if fmt in ("CERN", "BQCD") else dims_of(r, ND, 1, 3, 20); U = ref.field(r, dims, N, "hot"); data = rio.encode(fmt, dims, U, "D", "big"); w1 = w2 = "intact"
        s = prog.settings(ND, MODE=str(r.choice(["REWRITE", "SMEARING", "CUTTING", "GAUGE_FIXING", "HEATBATH", "SUNCxU1"])), HEADER=prog.HEADERTAG[fmt], ITERS=1, GFTYPE="AXIALT", MAXMOM=3, MAX_T=1); s = prog.with_dims(s, dims); t = prog.text(s).encode()
        which = r.random()
        if which < 0.55: data, w1 = mutate(r, fmt, data, ND)
        if which > 0.45 and which < 0.9: t, w2 = fuzztext(r, t)
        argv = None
        if which >= 0.9:
            word = lambda: [b"-i", b"-c", b"-o", b"in.txt", b"conf", b"out", b"--help", b"-h", b"--help=MODE", b"--autoin=LANDAU", b"--autoin=WFLOW", b"--autoin", b"", b"-", b"=", b"--help=", b"A" * 5000, b"--help=" + b"B" * 300, b"%s%n", b"/nonexistent/x", b"."][int(r.integers(21))]
            argv = [os.fsdecode(word()) for _ in range(int(r.integers(0, 8)))]; w1 = "argv"
        for f in os.listdir(wd):
            q = os.path.join(wd, f); os.unlink(q) if os.path.isfile(q) else None
        open(os.path.join(wd, "conf"), "wb").write(data); res = prog.run(g, wd, t, "conf", "out", int(r.integers(1, 4)), MEM, argv=argv, timeout=100)
        ctx = "%s %s dims %s configuration %s input file %s %s" % (g.variant, fmt, dims, w1, w2, argv or "")
        if "ERROR: AddressSanitizer" in res.err or "runtime error:" in res.err: kk, ww = fw.crash_site(res.err); i = max(res.err.find("ERROR: AddressSanitizer"), res.err.find("runtime error:")); R.bad("program/%s/%s" % (ww or "?", kk), "%s: %s" % (ctx, res.err[max(0, i - 200):i + 1500]))
        elif res.rc is None or res.rc < 0: R.bad("program/%s" % ("hang" if res.rc is None else "signal"), "%s: status %s %s" % (ctx, res.rc, res.text[-800:]))
        R.ok("%s/program/%s/%s/%s/%s" % (g.variant, fmt, w1 if "+" not in w1 else "several", w2, res.rc))
    return R.out()

def fuzz(R, c, g, r, wd, N, ND):
    """clang's coverage guided fuzzer on the same entry points"""
    import fuzzlib
    exe = fuzzlib.build(); corpus = os.path.join(wd, "corpus"); os.makedirs(corpus); t = c["target"]
    for k in range(12):
        if t == "input": d = make_input(r, ND)
        else:
            fs = [f for f in readable(3, 4) if rio.HEADER[f.split("_")[0]] == int(t)]; f = fs[k % len(fs)]; dims = [2] * 4 if f == "CERN" else dims_of(r, 4, 1, 2, 4); d = rio.encode(f, dims, ref.field(r, dims, 3, "hot"), "D", "big")
            if k > 3: d = mutate(r, f, d, 4)[0]
        open(os.path.join(corpus, "s%d" % k), "wb").write(d)
    e = dict(os.environ, GLU_FUZZ=t, GLU_VERIF_BYTES=str(4 << 20)); e.pop("LD_PRELOAD", None); fw.san_env(e, g.variant); e["ASAN_OPTIONS"] += ":detect_odr_violation=0"
    p = subprocess.run([exe, "-runs=%d" % c["runs"], "-seed=%d" % c["seed"], "-max_len=6000", "-timeout=60", "-rss_limit_mb=4000", "-close_fd_mask=3", "-dict=" + fuzzlib.dictionary(wd), "-print_final_stats=1", "-artifact_prefix=" + wd + "/", corpus], cwd=wd, env=e, capture_output=True, timeout=c["timeout"] - 5)
    er = p.stderr.decode(errors="replace"); m = re.search(r"stat::number_of_executed_units: (\d+)", er); cov = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", er)
    if p.returncode != 0:
        kk, ww = fw.crash_site(er); kept = [f for f in os.listdir(wd) if f.startswith(("crash-", "timeout-", "oom-", "leak-"))]
        data = open(os.path.join(wd, kept[0]), "rb").read() if kept else b""
        R.bad("fuzz/%s/%s/%s" % (t, ww or "?", kk or (kept[0].split("-")[0] if kept else "status%d" % p.returncode)), "target %s seed %d: %s\n input (%d bytes) %s" % (t, c["seed"], er[:2200], len(data), data[:300].hex()))
    R.ok("fuzz/%s/%s" % (t, cov[-1] if cov else ""), int(m.group(1)) if m else 1); R.obs["fuzzed inputs"] = int(m.group(1)) if m else 0
    if cov: R.obs["max_edges_" + t] = int(cov[-1][0]); R.obs["max_corpus_" + t] = int(cov[-1][2])
    return R.out()
