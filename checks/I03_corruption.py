"""Damaged and mismatched configuration files must not be taken for valid ones."""
import os, tempfile, struct, re
import numpy as np
from common import *
import ref, rio, lattio, prog
PROP = "I03"; LEVEL = "exploration"
RULE = ("valid files of every readable format, precision and byte order are damaged (cut at every kind of place, single bits and whole links altered anywhere in the payload, every header number and every check record altered, "
        "removed or contradicting, files of other colours, dimensions, formats) and given to read_file and the program; the undamaged file must be accepted, the damaged one refused or, where NERSC's rule accepts it because one of its three checks still agrees, the disagreement reported; "
        "distinct by variant, format, precision, byte order, kind and place of damage")
ASSUMPTIONS = ["NERSC files are refused when checksum, plaquette and link trace all disagree, by the program's documented rule; each single disagreement has to be reported",
               "HiRep and openQCD carry the plaquette only, LIME and JLQCD reading checks only that the links are complete: alterations those cannot see are not judged",
               "damage to HiRep and openQCD links is judged when the plaquette changes by more than 1e-8"]
MIN_SIGS = 300
VAR = ["nc3", "nc2", "nc4", "nc5nd3", "nc3nd3", "nc3_san"]
BUILDS = VAR
TIMEOUT = 120

def readable(N, ND): return [f for f in rio.FORMATS if (f != "CERN" or (N, ND) == (3, 4)) and (f != "NERSC_SMALL" or N < 4)] + ["BQCD", "LIME", "JLQCD"]
KINDS = ["cut", "bits", "links", "header", "other", "program"]

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; rep = 1 if tier == "quick" else 12
    for k in range(rep):
        for v in VAR:
            N, ND = ncnd(v)
            for f in readable(N, ND):
                pe = [("D", "big")] if f in ("HIREP", "JLQCD", "CERN") else [("D", "big"), ("F", "big")] if f in ("ILDG", "SCIDAC", "BQCD", "LIME") else [("D", "big"), ("D", "little"), ("F", "big"), ("F", "little")]
                for p, e in pe:
                    for kind in KINDS:
                        d = dims_of(r, ND, 2, 5, (120 if N < 4 else 60) if f != "BQCD" else 36, even=f == "CERN")
                        out.append(dict(variant=v, label=kind + "/" + f, kind=kind, fmt=f, dims=d, prec=p, endian=e, seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 5))))
    return out

def payload(fmt, b, N):
    """where the links are"""
    if fmt.startswith("NERSC"): o = b.index(b"END_HEADER\n") + 11; return o, len(b) - o
    if fmt in ("ILDG", "SCIDAC", "BQCD", "LIME"):
        o = 0
        while True:
            n, typ = struct.unpack(">Q128s", b[o + 8:o + 144])
            if b"binary-data" in typ: return o + 144, n
            o += 144 + n + (-n % 8)
    return None

def run(c, g):
    R = Report(); r = rng_of(c["seed"]); N, ND = g.NC, g.ND; dims = c["dims"]; fmt = c["fmt"]; kind = c["kind"]; V = int(np.prod(dims)); lat = ref.Lattice(dims)
    U = ref.field(r, dims, N, "hot"); prec, endian = c["prec"], c["endian"]
    if fmt == "NERSC_SMALL" and rio.short_conditioning(U) > (1e8 if prec == "D" else 1e4): return R.out()
    enc = lambda U=U, dims=dims, over=None, style=None, fmt=fmt: rio.encode(fmt, dims, U, prec, endian, over=over, style=style)
    b = enc(); head = rio.HEADER[fmt.split("_")[0]]; K = fmt + "/" + prec + "/" + endian; base = "%s %s dims %s threads %d" % (g.variant, K, dims, c["threads"])
    nersc = fmt.startswith("NERSC")
    off = {"MILC": 84 + 4 * ND - 4 if False else struct.calcsize(">i%di64siII" % ND), "HIREP": 4 * (ND + 1) + 8, "CERN": 4 * ND + 8, "JLQCD": 0}.get(fmt)
    po, pn = payload(fmt, b, N) or (off, len(b) - off)
    es = 8 if prec == "D" else 4
    with tempfile.TemporaryDirectory(prefix="glui03") as wd:
        path = os.path.join(wd, "conf")
        def read(data, head=head, start=None):
            open(path, "wb").write(data)
            A, d, _, txt = lattio.read(g, path, head, c["threads"], start or (dims if head == 7 else [7] * ND)); R.ok(); return A, txt
        def refused(what, data, must="refused", head=head):
            """must: refused, or reported when NERSC's rule lets it pass"""
            A, txt = read(data, head)
            if A is None: R.ok("%s/%s/%s" % (g.variant, K, what)); return
            # what a row of a link is rebuilt from does not matter
            if fmt == "HIREP" and A.shape == U.shape and abs(A - U).max() < 1e-12: return
            if must == "refused": R.bad("accepted/" + fmt + "/" + re.sub(r"[ \d].*", "", what), "%s: accepted with %s: %s" % (base, what, txt[-300:]))
            elif not lattio.complaint(txt): R.bad("unreported/" + fmt + "/" + re.sub(r"[ \d].*", "", what), "%s: accepted without a report with %s: %s" % (base, what, txt[-300:]))
            else: R.ok("%s/%s/reported %s" % (g.variant, K, what))
        A, txt = read(b)
        if A is None or lattio.complaint(txt): R.bad("valid/" + K, "%s: the undamaged file is not accepted: %s" % (base, txt[-400:])); return R.out()
        def damage_bits(n):
            m = bytearray(b)
            for _ in range(n): i = po + int(r.integers(pn)); m[i] ^= 1 << int(r.integers(8))
            return bytes(m)
        def damage_links(n):
            W = U.copy(); i = [int(x) for x in r.integers(V, size=n)]
            for s in i: W[s, int(r.integers(ND))] = ref.haar(r, 1, N)[0] if ref.haar(r, 1, N).ndim == 3 else ref.haar(r, N)
            return W
        def splice(W):
            """the payload of W under the header of the valid file"""
            q = rio.encode(fmt, dims, W, prec, endian); o, n = payload(fmt, q, N) or (off, len(q) - off)
            return b[:po] + q[o:o + n] + b[po + pn:]
        if kind == "cut":
            pts = {0, 1, po - 1, po, po + 1, po + pn - 1, po + pn - es} | {int(x) for x in r.integers(po + pn, size=6)} | {po + pn * k // V for k in (1, V - 1)}
            if fmt in ("ILDG", "SCIDAC", "BQCD"): pts |= {po + pn, po + pn + 1, po + pn + 100} | {int(x) for x in r.integers(po + pn, b.index(b"<suma>") + 7 if fmt != "BQCD" else b.index(b"bqcd-cksum") + 100, size=4)}
            for p in sorted(pts):
                if 0 <= p < len(b): refused("cut at %d of %d (links %d to %d)" % (p, len(b), po, po + pn), b[:p])
        elif kind == "bits":
            if fmt in ("MILC", "ILDG", "SCIDAC", "BQCD"):
                for _ in range(6): refused("bit flipped", damage_bits(1))
                for w in range(8 if es == 8 else 4):
                    m = bytearray(b); m[po + es * int(r.integers(pn // es)) + w] ^= 1 << int(r.integers(8)); refused("bits of byte %d" % w, bytes(m))
                m = bytearray(b); m[po] ^= 1; refused("first byte", bytes(m))
                m = bytearray(b); m[po + pn - 1] ^= 1; refused("last byte", bytes(m))
            elif nersc:
                for _ in range(6): refused("bit flipped", damage_bits(1), "reported")
                for w in range(es):
                    m = bytearray(b); m[po + es * int(r.integers(pn // es)) + w] ^= 1 << int(r.integers(8)); refused("bits of byte %d" % w, bytes(m), "reported")
                m = bytearray(b); m[po + pn - 1] ^= 1; refused("last byte", bytes(m), "reported")
            if fmt not in ("LIME", "JLQCD"):
                # numbers that are not numbers: nothing derived from them agrees
                m = bytearray(b); i = po + es * int(r.integers(pn // es)); m[i:i + es] = struct.pack((">" if endian == "big" or fmt == "HIREP" else "<") + ("d" if es == 8 else "f"), float("nan")) if fmt != "CERN" else struct.pack("<d", float("nan"))
                refused("not a number", bytes(m), "refused" if not nersc else "reported")
        elif kind == "links":
            if fmt in ("LIME", "JLQCD"): return R.out()
            for n in (1, 2, max(3, V // 4), V):
                W = damage_links(n)
                if fmt == "NERSC_SMALL" and rio.short_conditioning(W) > 1e4: continue
                dp, dt = abs(rio.plaq(lat, W) - rio.plaq(lat, U)), abs(rio.link_trace(W) - rio.link_trace(U))
                if nersc: must = "refused" if min(dp, dt) > 1e-4 else "reported"
                elif fmt in ("HIREP", "CERN"): must = "refused" if dp > 1e-8 else None
                else: must = "refused"
                if must: refused("%d links replaced" % n, splice(W), must)
            # two links exchanged: the numbers are the same, their order is not
            W = U.copy(); s, t = 0, V // 2; W[[s, t]] = W[[t, s]]
            if abs(rio.plaq(lat, W) - rio.plaq(lat, U)) > 1e-4:
                if fmt in ("HIREP", "CERN", "BQCD", "ILDG", "SCIDAC"): refused("sites exchanged", splice(W))
                elif fmt == "MILC" and (2 * N * N * ND * (t - s)) % (29 * 31): refused("sites exchanged", splice(W))
                elif nersc: refused("sites exchanged", splice(W), "reported")
            # sites a period of one of the two checksums apart: only the other one sees it
            for p in (29, 31):
                if V > p and fmt in ("MILC", "ILDG", "SCIDAC", "BQCD"):
                    W = U.copy(); s = int(r.integers(V - p)); W[[s, s + p]] = W[[s + p, s]]; refused("sites %d apart exchanged" % p, splice(W))
        elif kind == "header":
            d2 = list(dims); d2[int(r.integers(ND))] += 2; d3 = list(dims); i = int(r.integers(ND)); d3[i] = max(2, d3[i] - 2) if d3[i] > 2 else 1
            if fmt == "CERN": d3 = list(dims); d3[0] = 2; d3[1] = 2
            def dims_over(d): return {"dims": d} if not nersc else {"DIMENSION_%d" % (k + 1): "%d" % x for k, x in enumerate(d)}
            if fmt in ("HIREP", "CERN"):
                pos = {"HIREP": [4 * (i + 1) for i in list(range(1, ND)) + [0]], "CERN": [4, 8, 12, 0]}[fmt]
                def redim(d):
                    m = bytearray(b)
                    for p, x in zip(pos, d): m[p:p + 4] = struct.pack(">i" if fmt == "HIREP" else "<i", x)
                    return bytes(m)
                refused("larger extents", redim(d2))
                if d3 != dims: refused("smaller extents", redim(d3))
                for x in (0, -1, -2, 1 << 30): d = list(dims); d[int(r.integers(ND))] = x; refused("extent %d" % x, redim(d))
                p = dims[::-1]
                if p != dims and fmt == "HIREP": refused("reversed extents", redim(p))
                pl = rio.plaq(lat, U) * (N if fmt == "CERN" else 1)
                for x in (pl + 1e-6, pl - 1e-6, -pl, 0.0, float("nan"), float("inf"), pl * N, pl / N):
                    refused("plaquette %.17g" % x, enc(over={"plaquette": x}))
                if fmt == "HIREP":
                    for n in (N + 1, N - 1, 0, -N): refused("NC %d" % n, enc(over={"NC": n}))
            elif nersc:
                S = "%x" % (rio.nersc_sum(np.zeros(1)) + 12345); P = "%.10f" % (rio.plaq(lat, U) + 0.01); T = "%.10f" % (rio.link_trace(U) - 0.02)
                bad = dict(CHECKSUM=S, PLAQUETTE=P, LINK_TRACE=T)
                refused("all checks wrong", enc(over=bad)); refused("all checks wrong, nan", enc(over=dict(bad, PLAQUETTE="nan"))); refused("all checks wrong, both nan", enc(over=dict(bad, PLAQUETTE="nan", LINK_TRACE="nan")))
                for k in bad: refused("wrong " + k, enc(over={k: bad[k]}), "reported")
                for k in ("PLAQUETTE", "LINK_TRACE"): refused("small error in " + k, enc(over={k: "%.10f" % ((rio.plaq(lat, U) if k == "PLAQUETTE" else rio.link_trace(U)) + 1e-5)}), "reported")
                for k in ("CHECKSUM", "PLAQUETTE", "LINK_TRACE", "DATATYPE", "FLOATING_POINT", "SEQUENCE_NUMBER") + tuple("DIMENSION_%d" % (i + 1) for i in range(ND)): refused("no " + k, enc(over={k: None}))
                for k, vs in dict(DATATYPE=["%dD_SU%d_GAUGE" % (ND, N + 1), "%dD_SU%d_GAUGE" % (ND + 1, N), "%dD_SU%d_GAUGE_%dx%d" % (ND, N, N, N + 1), "nonsense", ""], FLOATING_POINT=["IEEE128BIG", "", "IEEE", "64"], CHECKSUM=["", "zzz"], PLAQUETTE=["", "x"], LINK_TRACE=["x"]).items():
                    for x in vs: refused("%s=%s" % (k, x), enc(over={k: x}))
                refused("larger extents", enc(over=dims_over(d2)))
                if d3 != dims: refused("smaller extents", enc(over=dims_over(d3)), "reported")
                for x in (0, -1, -3, 1 << 40, "x", "", "4x"): d = dims_over(dims); d["DIMENSION_%d" % (1 + int(r.integers(ND)))] = "%s" % x; refused("extent %s" % x, enc(over=d), "refused" if x != "4x" else "reported") if x != "4x" else None
                refused("no end of header", b.replace(b"END_HEADER\n", b"EN_HEADER\n", 1)); refused("no begin of header", b.replace(b"BEGIN_HEADER\n", b"BEGIN\n", 1))
                # the other byte order, precision
                for x in ("IEEE64BIG", "IEEE64LITTLE", "IEEE32BIG", "IEEE32LITTLE"):
                    if x[4:6] != ("64" if prec == "D" else "32") and x[4:6] == "32": refused("read in another precision", enc(over={"FLOATING_POINT": x}), "reported")
                    elif x[4:6] == ("64" if prec == "D" else "32") and x[6:].lower() != endian: refused("read in another byte order", enc(over={"FLOATING_POINT": x}), "reported")
                    elif x[4:6] == "64" and prec == "F": refused("read in double precision", enc(over={"FLOATING_POINT": x}))
            elif fmt == "MILC":
                s, s31 = rio.milc_sums(rio.pack(U).astype(np.float64 if prec == "D" else np.float32))
                for x in (s31 ^ 1, s31 ^ 0x80000000, 0, s):
                    if x != s31: refused("sum31", enc(over={"sum31": x}))
                for x in (s ^ 1, s ^ 0x80000000, 0, (s + 1) & 0xffffffff): 
                    if x != s: refused("sum29", enc(over={"sum29": x}))
                refused("magic", enc(over={"magic": 20105})); refused("the other precision", enc(over={"magic": 20104 if prec == "F" else 20103})); refused("order", enc(over={"order": 1}))
                refused("larger extents", enc(over={"dims": d2}))
                if d3 != dims: refused("smaller extents", enc(over={"dims": d3}))
                for x in (0, -1, 1 << 30): d = list(dims); d[int(r.integers(ND))] = x; refused("extent %d" % x, enc(over={"dims": d}))
            elif fmt != "JLQCD":
                if fmt in ("ILDG", "SCIDAC"):
                    a, a31 = rio.scidac_sums(b[po:po + pn], V)
                    for x in (a31 ^ 1, a31 ^ 0x80000000, 0, a):
                        if x != a31: refused("sumb", enc(over={"sumb": x}))
                    for x in (a ^ 1, a ^ 0x80000000, 0): refused("suma", enc(over={"suma": x}))
                    refused("no checksum record", enc(over={"drop": ["scidac-checksum"]}))
                if fmt in ("SCIDAC",) or fmt == "ILDG":
                    for x in (N + 1, N - 1): refused("colors %d" % x, enc(over={"colors": x}))
                    refused("spacetime", enc(over={"spacetime": ND + 1}))
                if fmt != "SCIDAC":
                    x = N + 1 if N + 1 != 3 else N + 2; refused("field", enc(over={"field": "su%dgauge" % x}))
                if fmt == "BQCD":
                    pl = rio.plaq(lat, U)
                    refused("plaquette", enc(over={"plaquette": "%.15f" % (pl + 1e-5)})); refused("plaquette nan", enc(over={"plaquette": "nan"}))
                    refused("cksum", enc(over={"cksum": rio.posix_cksum(b[po:po + pn]) ^ 1}))
                    refused("no plaquette", enc(over={"drop": ["bqcd-plaquette"]})); refused("no cksum", enc(over={"drop": ["bqcd-cksum"]}))
                refused("larger extents", enc(over={"dims": d2}))
                if d3 != dims: refused("smaller extents", enc(over={"dims": d3}))
                for x in (0, -1, 1 << 40, 1 << 32): i = int(r.integers(ND)); d = list(dims); d[i] = x + (d[i] if x >> 32 == 1 else 0); refused("extent %d" % x, enc(over={"dims": d}))
                refused("magic", enc(over={"magic": 0x456789ac}))
                refused("no links", enc(over={"drop": ["ildg-binary-data", "scidac-binary-data"]}))
        elif kind == "other":
            # read as something it is not
            for f in readable(N, ND):
                if f.split("_")[0] == fmt.split("_")[0] or f in ("LIME", "JLQCD"): continue
                if {f, fmt} <= {"ILDG", "SCIDAC"}: continue      # the same framing and checksum
                if fmt in ("LIME", "BQCD") and f in ("ILDG", "SCIDAC", "BQCD") or fmt in ("ILDG", "SCIDAC") and f == "BQCD": pass
                refused("read as " + f, b, head=rio.HEADER[f.split("_")[0]])
            for nn, nd in ((N + 1, ND), (N, ND - 1), (N, ND + 1)):
                if fmt in ("CERN", "JLQCD", "LIME") or (fmt == "NERSC_SMALL" and nn > 3) or nd < 2: continue
                dd = (dims + [2])[:nd]; W = ref.field(r, dd, nn, "hot")
                refused("file of SU(%d) in %dD" % (nn, nd), rio.encode(fmt, dd, W, prec, endian))
            refused("empty file", b"") if fmt != "JLQCD" or True else None
            refused("random bytes", r.integers(0, 256, len(b), dtype=np.uint8).tobytes()) if fmt != "JLQCD" else None
            refused("text", b"hello world\n" * 50) if fmt != "JLQCD" else None
        else:
            # the program: nothing is written, the status says so
            m = b[:po + int(r.integers(pn))] if fmt in ("LIME", "JLQCD") or r.integers(2) else splice(damage_links(V))
            if fmt == "NERSC_SMALL" and rio.short_conditioning(U) > 1e4: m = b[:po + 3]
            open(os.path.join(wd, "bad"), "wb").write(m)
            mem = prog.tight(N, ND, V) if r.integers(2) else None
            mode = ["REWRITE", "GAUGE_FIXING", "SMEARING", "CUTTING", "SUNCxU1", "HEATBATH"][int(r.integers(6))]
            q = prog.run(g, wd, prog.with_dims(prog.settings(ND, MODE=mode, HEADER=prog.HEADERTAG[fmt]), dims), "bad", "out", c["threads"], mem); R.ok()
            ctx = base + " " + mode + (" little memory" if mem else "")
            if q.crashed: R.bad("program/crash/" + fmt, "%s: the program ended with %s: %s" % (ctx, q.rc, q.text[-800:]))
            elif not q.failed: R.bad("program/status/" + fmt, "%s: a damaged file and exit status 0: %s" % (ctx, q.text[-400:]))
            left = sorted(set(os.listdir(wd)) - {"bad", "in.txt", "conf"})
            if left: R.bad("program/output/" + fmt, "%s: a damaged file and output %s" % (ctx, left))
            R.ok("%s/%s/program/%s/%s/%s" % (g.variant, K, mode, bool(mem), len(m) < len(b)))
    return R.out()
