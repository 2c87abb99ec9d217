"""Encoders and decoders of the configuration formats, written from their
specifications alone: links are U[site, mu, NC, NC] with x running fastest."""
import re, struct, zlib
import xml.etree.ElementTree as ET
import numpy as np
import ref

FORMATS = ["NERSC_SMALL", "NERSC_GAUGE", "NERSC_NCxNC", "MILC", "ILDG", "SCIDAC", "HIREP", "CERN"]
STORAGE = {"NERSC_SMALL": 1, "NERSC_GAUGE": 2, "NERSC_NCxNC": 3, "MILC": 4, "ILDG": 5, "SCIDAC": 6, "HIREP": 7, "CERN": 8}
HEADER = {"NERSC": 1, "HIREP": 2, "MILC": 3, "SCIDAC": 4, "ILDG": 5, "BQCD": 6, "JLQCD": 7, "LIME": 8, "CERN": 9}
def header_of(fmt): return HEADER[fmt.split("_")[0]]
def available(fmt, N, ND):
    return (fmt != "CERN" or (ND == 4)) and (fmt != "NERSC_SMALL" or N < 4)

# ---- observables in the headers
def plaq(lat, U):
    N = U.shape[-1]; ND = U.shape[1]
    return float(np.mean([ref.tr(ref.plaq_field(lat, U, mu, nu)).real.mean() / N for mu in range(ND) for nu in range(mu)]))
def link_trace(U): return float(ref.tr(U).real.mean() / U.shape[-1])

# ---- checksums
def words(vals): # 32 bit words of host ordered numbers
    return np.ascontiguousarray(vals).view(np.uint32)
def nersc_sum(vals): return int(words(vals).astype(np.uint64).sum() & 0xffffffff)
def rotl(w, r):
    w = w.astype(np.uint64); r = np.asarray(r, dtype=np.uint64)
    return ((w << r) | (w >> (np.uint64(32) - r))) & np.uint64(0xffffffff)
def milc_sums(vals):
    w = words(vals).astype(np.uint64)
    if vals.dtype == np.float64: w = (w[0::2] + w[1::2]) & np.uint64(0xffffffff)
    k = np.arange(len(w))
    return tuple(int(np.bitwise_xor.reduce(rotl(w, k % m))) for m in (29, 31))
def scidac_sums(raw, V):
    n = len(raw) // V
    c = np.array([zlib.crc32(raw[i * n:(i + 1) * n]) & 0xffffffff for i in range(V)], dtype=np.uint64)
    k = np.arange(V)
    return tuple(int(np.bitwise_xor.reduce(rotl(c, k % m))) for m in (29, 31))
_T = None
def posix_cksum(raw):
    global _T
    if _T is None:
        _T = []
        for i in range(256):
            c = i << 24
            for _ in range(8): c = ((c << 1) ^ 0x04C11DB7 if c & 0x80000000 else c << 1) & 0xffffffff
            _T.append(c)
    T = _T; c = 0
    for b in raw: c = ((c << 8) & 0xffffffff) ^ T[(c >> 24) ^ b]
    n = len(raw)
    while n: c = ((c << 8) & 0xffffffff) ^ T[(c >> 24) ^ (n & 0xff)]; n >>= 8
    return (~c) & 0xffffffff

# ---- link layouts
def pack(U): # row major real, imaginary
    U = np.ascontiguousarray(U, dtype=np.complex128)
    return U.view(np.float64).reshape(-1)
def short(U): # parameters of NERSC_SMALL
    N = U.shape[-1]; u = U.reshape(-1, N * N)
    if N == 3: c = [u[:, 1].real, u[:, 1].imag, u[:, 2].real, u[:, 2].imag, u[:, 3].real, u[:, 3].imag, np.angle(u[:, 0]), np.angle(u[:, 6])]
    else: c = [np.angle(u[:, 0]), u[:, 1].real, u[:, 1].imag]
    return np.stack(c, 1).reshape(-1)
def unshort(a, N):
    """solves for the rest of the matrix from unitarity alone"""
    if N == 2:
        a = a.reshape(-1, 3); b = a[:, 1] + 1j * a[:, 2]; d = np.sqrt(np.maximum(0, 1 - abs(b) ** 2)) * np.exp(1j * a[:, 0])
        return np.stack([d, b, -b.conj(), d.conj()], 1).reshape(-1, 2, 2)
    a = a.reshape(-1, 8)
    u1 = a[:, 0] + 1j * a[:, 1]; u2 = a[:, 2] + 1j * a[:, 3]; u3 = a[:, 4] + 1j * a[:, 5]
    u0 = np.sqrt(np.maximum(0, 1 - abs(u1) ** 2 - abs(u2) ** 2)) * np.exp(1j * a[:, 6])
    u6 = np.sqrt(np.maximum(0, 1 - abs(u0) ** 2 - abs(u3) ** 2)) * np.exp(1j * a[:, 7])
    r0 = np.stack([u0, u1, u2], 1)
    # the second row is orthogonal to the first and starts with u3; its other component along conj(u2),-conj(u1) is fixed by u6 = conj(r0 x r1)_0
    n = abs(u1) ** 2 + abs(u2) ** 2
    s = -u3 * u0.conj() / n          # part along (u1,u2)
    t = -u6.conj() / n               # part along (conj u2, -conj u1)
    r1 = np.stack([u3, s * u1 + t * u2.conj(), s * u2 - t * u1.conj()], 1)
    r2 = np.cross(r0, r1).conj()
    return np.stack([r0, r1, r2], 1)
def short_conditioning(U):
    """how much rounding is amplified by storing only the short form"""
    N = U.shape[-1]; u = abs(U.reshape(-1, N * N)) ** 2
    m = u[:, 0] if N == 2 else np.minimum(np.minimum(u[:, 1] + u[:, 2], u[:, 0]), u[:, 6])
    return 1 / max(float(m.min()), 1e-300)
def complete_rows(R):
    """N-1 rows to a special unitary matrix"""
    N = R.shape[-1]; out = np.zeros(R.shape[:-2] + (N, N), complex); out[..., :N - 1, :] = R
    for k in range(N):
        M = np.delete(R, k, axis=-1)
        out[..., N - 1, k] = ((-1) ** (N - 1 + k) * np.linalg.det(M)).conj()
    return out
def hirep_order(dims):
    lat = ref.Lattice(dims)
    # t slowest, then x, y, ... with the last spatial direction fastest
    x = lat.x; return np.lexsort(tuple(x[mu] for mu in range(len(dims) - 2, -1, -1)) + (x[-1],))
def hirep_links(U):
    N = U.shape[-1]; V = np.concatenate([U[:, -1:], U[:, :-1]], 1)
    if N == 2:
        u = V[..., 0, :]
        return np.stack([u[..., 0].real, u[..., 1].imag, -u[..., 1].real, u[..., 0].imag], -1).reshape(-1)
    return pack(V)
def cern_index(dims):
    """(site, mu) of every stored link"""
    lat = ref.Lattice(dims); X, Y, Z, T = dims; out = []
    for t in range(T):
        for x in range(X):
            for y in range(Y):
                for z in range(Z):
                    if (x + y + z + t) & 1:
                        s = lat.index([x, y, z, t])
                        for mu in (3, 0, 1, 2): out += [(s, mu), (lat.bw[mu][s], mu)]
    return np.array(out, dtype=int)

# ---- framing
def lime(records, magic=0x456789ab, version=1):
    b = b""
    for i, (typ, data) in enumerate(records):
        mb = 0x80 if i == 0 else 0; me = 0x40 if i == len(records) - 1 else 0
        b += struct.pack(">IHBBQ128s", magic, version, mb | me, 0, len(data), typ) + data + b"\0" * (-len(data) % 8)
    return b
def unlime(b):
    out = []; o = 0; flags = []
    while o < len(b):
        if len(b) - o < 144: raise ValueError("%d bytes left after the last record" % (len(b) - o))
        magic, ver, fl, _, n, typ = struct.unpack(">IHBBQ128s", b[o:o + 144])
        if magic != 0x456789ab: raise ValueError("magic %x at %d" % (magic, o))
        d = b[o + 144:o + 144 + n]; p = b[o + 144 + n:o + 144 + n + (-n % 8)]
        if len(d) != n or len(p) != -n % 8: raise ValueError("record %r cut short" % typ.rstrip(b"\0"))
        if p.strip(b"\0"): raise ValueError("padding of %r is not zero" % typ.rstrip(b"\0"))
        if ver != 1 or fl & 0x3f or _ : raise ValueError("version %d flags %x of %r" % (ver, fl, typ.rstrip(b"\0")))
        flags.append(fl); out.append((typ.split(b"\0")[0], d)); o += 144 + n + (-n % 8)
    # records form messages: each begins with a record flagged so and ends with one flagged so
    inside = False
    for fl in flags:
        if bool(fl & 0x80) == inside: raise ValueError("message flags %s" % ["%x" % f for f in flags])
        inside = not fl & 0x40
    if inside: raise ValueError("last message not ended: flags %s" % ["%x" % f for f in flags])
    return out
def xmltag(d, t):
    m = re.search(r"<%s[^>]*>([^<]*)</%s>" % (t, t), d); return None if m is None else m.group(1).strip()

def dt(prec, endian): return np.dtype((">" if endian == "big" else "<") + ("f8" if prec == "D" else "f4"))

def encode(fmt, dims, U, prec="D", endian="big", flow=400, extra=(), over=None, style=None):
    """bytes of a file holding U; over replaces header values, style varies what the specification leaves open"""
    over = dict(over or {}); style = style or {}
    N = U.shape[-1]; ND = U.shape[1]; V = len(U); lat = ref.Lattice(dims)
    host = np.float64 if prec == "D" else np.float32
    if fmt.startswith("NERSC"):
        kind = fmt.split("_")[1]
        vals = {"SMALL": lambda: short(U), "GAUGE": lambda: pack(U[..., :N - 1, :]), "NCxNC": lambda: pack(U)}[kind]().astype(host)
        name = {"SMALL": "_SMALL", "GAUGE": "", "NCxNC": "_%dx%d" % (N, N)}[kind]
        fp = {"DB": "IEEE64BIG", "DL": "IEEE64LITTLE", "FB": style.get("fp32", "IEEE32BIG"), "FL": "IEEE32LITTLE"}[prec + endian[0].upper()]
        H = [("HDR_VERSION", "1.0"), ("DATATYPE", "%dD_SU%d_GAUGE%s" % (ND, N, name)), ("STORAGE_FORMAT", "1.0")]
        H += [("DIMENSION_%d" % (i + 1), "%d" % d) for i, d in enumerate(dims)]
        H += [("CHECKSUM", style.get("hex", "%x") % nersc_sum(vals)), ("LINK_TRACE", "%1.10f" % link_trace(U)), ("PLAQUETTE", "%1.10f" % plaq(lat, U))]
        H += [("BOUNDARY_%d" % (i + 1), "PERIODIC") for i in range(ND)]
        H += [("ENSEMBLE_ID", "someone"), ("SEQUENCE_NUMBER", "%d" % flow), ("ENSEMBLE_LABEL", "label"), ("CREATOR", "another program"), ("FLOATING_POINT", fp)]
        H = [(k, over.get(k, v)) for k, v in H if over.get(k, v) is not None]
        if style.get("shuffle") is not None: H = [H[i] for i in np.random.default_rng(style["shuffle"]).permutation(len(H))]
        h = "BEGIN_HEADER\n" + "".join("%s = %s\n" % kv for kv in H) + "END_HEADER\n"
        return h.encode() + vals.astype(dt(prec, endian)).tobytes()
    if fmt == "MILC":
        vals = pack(U).astype(host); s29, s31 = milc_sums(vals); e = ">" if endian == "big" else "<"
        s29 = over.get("sum29", s29); s31 = over.get("sum31", s31)
        return struct.pack(e + "i%di64siII" % ND, over.get("magic", 20103 if prec == "F" else 20104), *over.get("dims", dims), b"Mon Jan  1 00:00:00 2001 GMT", over.get("order", 0), s29, s31) + vals.astype(dt(prec, endian)).tobytes()
    if fmt in ("ILDG", "SCIDAC", "BQCD", "LIME"):
        raw = pack(U).astype(dt(prec, "big")).tobytes(); a, b = scidac_sums(raw, V); P = 32 if prec == "F" else 64
        a = over.get("suma", a); b = over.get("sumb", b)
        x = '<?xml version="1.0" encoding="UTF-8"?>'
        dd = over.get("dims", dims); nc = over.get("colors", N); nd = over.get("spacetime", ND)
        private = x + "<scidacFile><version>1.1</version><spacetime>%d</spacetime><dims>%s</dims><volfmt>0</volfmt></scidacFile>" % (nd, " ".join(map(str, dd)) + style.get("dimpad", ""))
        record = x + "<scidacRecord><version>1.0</version><date>Mon Jan  1 00:00:00 2001 GMT</date><globaldata>0</globaldata><datatype>QDP_%s%d_ColorMatrix</datatype><precision>%s</precision><colors>%d</colors><typesize>%d</typesize><datacount>%d</datacount></scidacRecord>" % (prec, N, prec, nc, ND * N * N * 2 * P // 32, ND)
        names = ["lx", "ly", "lz", "lt"] if ND == 4 else ["lx", "ly", "lt"] if ND == 3 else ["lx", "ly", "lz"] + ["l%d" % k for k in range(3, ND - 1)] + ["lt"]
        ildg = x + '<ildgFormat xmlns="http://www.lqcd.org/ildg"><version>1.0</version><field>%s</field><precision>%d</precision>%s</ildgFormat>' % (
            over.get("field", style.get("field", "su%dgauge" % N)), P, "".join("<%s>%d</%s>" % (n, d, n) for n, d in zip(names, dd)))
        chk = x + "<scidacChecksum><version>1.0</version><suma>%x</suma><sumb>%x</sumb></scidacChecksum>" % (a, b)
        R = []
        qio = fmt == "SCIDAC" or style.get("qio", fmt == "ILDG")
        if qio: R += [(b"scidac-private-file-xml", private.encode()), (b"scidac-file-xml", b"<title>field</title>"), (b"scidac-private-record-xml", record.encode()), (b"scidac-record-xml", b"<info>something</info>")]
        if fmt != "SCIDAC": R += [(b"ildg-format", ildg.encode())]
        R += list(extra)
        R += [(b"scidac-binary-data" if fmt == "SCIDAC" else b"ildg-binary-data", raw)]
        if fmt in ("ILDG", "SCIDAC"): R += [(b"scidac-checksum", chk.encode())]
        if fmt == "BQCD": R += [(b"bqcd-plaquette", over.get("plaquette", "%.15f" % plaq(lat, U)).encode()), (b"bqcd-cksum", b"%d %d" % (over.get("cksum", posix_cksum(raw)), len(raw)))]
        if fmt in ("ILDG", "BQCD") and style.get("lfn", True): R += [(b"ildg-data-lfn", b"lfn://somewhere")]
        R = [r for r in R if r[0].decode() not in over.get("drop", ())]
        return lime(R, **{k: over[k] for k in ("magic",) if k in over})
    if fmt == "HIREP":
        o = hirep_order(dims)
        return struct.pack(">%di" % (ND + 1), over.get("NC", N), *([dims[-1]] + list(dims[:-1]))) + struct.pack(">d", over.get("plaquette", plaq(lat, U))) + hirep_links(U[o]).astype(">f8").tobytes()
    if fmt == "CERN":
        ix = cern_index(dims)
        return struct.pack("<4i", dims[3], *dims[:3]) + struct.pack("<d", over.get("plaquette", N * plaq(lat, U))) + pack(U[ix[:, 0], ix[:, 1]]).astype("<f8").tobytes()
    if fmt == "JLQCD": return pack(U).astype(">f8").tobytes()
    raise KeyError(fmt)

def decode(fmt, b, N, ND):
    """{'dims','U','flow','checks':[(name, stored, computed, tolerance)],'problems':[...]} of a file's bytes"""
    bad = []; D = dict(problems=bad, checks=[], flow=None)
    def links(vals, dims): return np.ascontiguousarray(vals.astype(np.float64)).view(complex).reshape(int(np.prod(dims)), ND, N, N)
    if fmt.startswith("NERSC"):
        kind = fmt.split("_")[1]; e = b.index(b"END_HEADER\n"); head = b[:e].decode("ascii", "replace").split("\n"); raw = b[e + 11:]
        if head[0] != "BEGIN_HEADER": bad.append("first line %r" % head[0])
        H = {}
        for l in head[1:]:
            if not l: continue
            if " = " not in l: bad.append("header line %r" % l); continue
            k, v = l.split(" = ", 1)
            if k in H: bad.append("%s given twice" % k)
            H[k] = v
        D["header"] = H
        dims = [int(H["DIMENSION_%d" % (i + 1)]) for i in range(ND)]
        if "DIMENSION_%d" % (ND + 1) in H: bad.append("too many extents")
        t = "%dD_SU%d_GAUGE%s" % (ND, N, {"SMALL": "_SMALL", "GAUGE": "", "NCxNC": "_%dx%d" % (N, N)}[kind])
        if H["DATATYPE"] != t: bad.append("datatype %r instead of %r" % (H["DATATYPE"], t))
        ty = {"IEEE64BIG": ">f8", "IEEE64LITTLE": "<f8", "IEEE32BIG": ">f4", "IEEE32LITTLE": "<f4"}[H["FLOATING_POINT"]]
        n = {"SMALL": N * N - 1, "GAUGE": 2 * N * (N - 1), "NCxNC": 2 * N * N}[kind] * ND * int(np.prod(dims)) * int(ty[2])
        if len(raw) != n: bad.append("%d bytes of links instead of %d" % (len(raw), n)); return D
        vals = np.frombuffer(raw, ty); host = vals.astype(ty[1:])
        V = int(np.prod(dims))
        U = unshort(vals.astype(float), N).reshape(V, ND, N, N) if kind == "SMALL" else complete_rows(np.ascontiguousarray(vals.astype(float)).view(complex).reshape(V, ND, N - 1, N)) if kind == "GAUGE" else links(vals, dims)
        D.update(dims=dims, U=U, flow=int(H["SEQUENCE_NUMBER"]), label=H.get("ENSEMBLE_LABEL"), prec=ty[2])
        lat = ref.Lattice(dims)
        D["checks"] = [("checksum", int(H["CHECKSUM"], 16), nersc_sum(host), 0), ("plaquette", float(H["PLAQUETTE"]), plaq(lat, U), 1e-12), ("link trace", float(H["LINK_TRACE"]), link_trace(U), 1e-12)]
        for i in range(ND):
            if H.get("BOUNDARY_%d" % (i + 1)) != "PERIODIC": bad.append("boundary %d" % (i + 1))
        return D
    if fmt == "MILC":
        e = ">" if struct.unpack(">i", b[:4])[0] in (20103, 20104) else "<"
        f = e + "i%di64siII" % ND; n = struct.calcsize(f); magic, *dims, date, order, s29, s31 = struct.unpack(f, b[:n])
        if magic not in (20103, 20104): bad.append("magic %d" % magic); return D
        ty = e + ("f4" if magic == 20103 else "f8"); raw = b[n:]; dims = list(dims)
        if order != 0: bad.append("order %d" % order)
        if b"\0" not in date or date.split(b"\0")[0].strip() == b"" or date.rstrip(b"\0").count(b"\0"): bad.append("date field %r" % date)
        if len(raw) != 2 * N * N * ND * int(np.prod(dims)) * int(ty[2]): bad.append("%d bytes of links" % len(raw)); return D
        vals = np.frombuffer(raw, ty); a, c = milc_sums(vals.astype(ty[1:]))
        D.update(dims=dims, U=links(vals, dims), prec=ty[2]); D["checks"] = [("sum29", s29, a, 0), ("sum31", s31, c, 0)]
        return D
    if fmt in ("ILDG", "SCIDAC"):
        try: R = unlime(b)
        except ValueError as e: bad.append(str(e)); return D
        for t, d in R:
            if t.endswith(b"xml") or t in (b"ildg-format", b"scidac-checksum"):
                try: ET.fromstring(d)
                except ET.ParseError as e: bad.append("record %s is not XML: %s in %r" % (t.decode(), e, d[:400]))
        names = [t.decode() for t, _ in R]; rec = dict(R)
        want = ["scidac-private-file-xml", "scidac-file-xml", "scidac-private-record-xml", "scidac-record-xml"] + (["ildg-format", "ildg-data-lfn", "ildg-binary-data"] if fmt == "ILDG" else ["scidac-binary-data"]) + ["scidac-checksum"]
        D["records"] = names
        for w in want:
            if w not in names: bad.append("no record %s" % w)
        if bad: return D
        pf = rec[b"scidac-private-file-xml"].decode(); pr = rec[b"scidac-private-record-xml"].decode()
        dims = [int(x) for x in xmltag(pf, "dims").split()]; prec = xmltag(pr, "precision"); P = 8 if prec == "D" else 4
        if xmltag(pf, "spacetime") != str(ND) or len(dims) != ND: bad.append("spacetime %s dims %s" % (xmltag(pf, "spacetime"), dims))
        if xmltag(pf, "volfmt") != "0": bad.append("volfmt")
        if xmltag(pr, "colors") != str(N): bad.append("colors %s" % xmltag(pr, "colors"))
        if xmltag(pr, "datacount") != str(ND): bad.append("datacount %s" % xmltag(pr, "datacount"))
        if xmltag(pr, "datatype") != "QDP_%s%d_ColorMatrix" % (prec, N): bad.append("datatype %s" % xmltag(pr, "datatype"))
        if ND == 4 and xmltag(pr, "typesize") != str(2 * N * N * P): bad.append("typesize %s" % xmltag(pr, "typesize"))
        if fmt == "ILDG":
            f = rec[b"ildg-format"].decode()
            if xmltag(f, "field") != "su%dgauge" % N: bad.append("field %s" % xmltag(f, "field"))
            if xmltag(f, "precision") != str(8 * P): bad.append("precision %s" % xmltag(f, "precision"))
            if names.index("ildg-format") > names.index("ildg-binary-data"): bad.append("ildg-format after the data")
            nm = (["lx", "ly", "lz"] + ["l%d" % k for k in range(3, ND)])[:ND - 1] + ["lt"]
            if [xmltag(f, n) for n in nm] != [str(d) for d in dims]: bad.append("ildg extents %s" % [xmltag(f, n) for n in nm])
        raw = rec[b"ildg-binary-data" if fmt == "ILDG" else b"scidac-binary-data"]; V = int(np.prod(dims))
        if len(raw) != 2 * N * N * ND * V * P: bad.append("%d bytes of links" % len(raw)); return D
        a, c = scidac_sums(raw, V); k = rec[b"scidac-checksum"].decode()
        D.update(dims=dims, U=links(np.frombuffer(raw, ">f%d" % P), dims), prec=str(P))
        D["checks"] = [("suma", int(xmltag(k, "suma"), 16), a, 0), ("sumb", int(xmltag(k, "sumb"), 16), c, 0)]
        return D
    if fmt == "HIREP":
        n = 4 * (ND + 1); nc, t, *sp = struct.unpack(">%di" % (ND + 1), b[:n]); dims = list(sp) + [t]; pl = struct.unpack(">d", b[n:n + 8])[0]; raw = b[n + 8:]
        if nc != N: bad.append("colours %d" % nc)
        V = int(np.prod(dims)); per = 4 if N == 2 else 2 * N * N
        if len(raw) != 8 * per * ND * V: bad.append("%d bytes of links" % len(raw)); return D
        v = np.frombuffer(raw, ">f8").astype(float).reshape(V, ND, per)
        if N == 2:
            a = v[..., 0] + 1j * v[..., 3]; c = -v[..., 2] + 1j * v[..., 1]
            M = np.stack([a, c, -c.conj(), a.conj()], -1).reshape(V, ND, 2, 2)
        else: M = np.ascontiguousarray(v).view(complex).reshape(V, ND, N, N)
        U = np.zeros((V, ND, N, N), complex); o = hirep_order(dims)
        U[o] = np.concatenate([M[:, 1:], M[:, :1]], 1)
        D.update(dims=dims, U=U, prec="8"); D["checks"] = [("plaquette", pl, plaq(ref.Lattice(dims), U), 1e-12)]
        return D
    if fmt == "CERN":
        t, x, y, z = struct.unpack("<4i", b[:16]); dims = [x, y, z, t]; pl = struct.unpack("<d", b[16:24])[0]; raw = b[24:]; V = int(np.prod(dims))
        if len(raw) != 16 * N * N * ND * V: bad.append("%d bytes of links" % len(raw)); return D
        M = np.frombuffer(raw, "<f8").astype(float).view(complex).reshape(-1, N, N); ix = cern_index(dims)
        U = np.full((V, ND, N, N), np.nan + 0j); U[ix[:, 0], ix[:, 1]] = M
        D.update(dims=dims, U=U, prec="8"); D["checks"] = [("plaquette", pl, N * plaq(ref.Lattice(dims), U), 1e-11)]
        return D
    raise KeyError(fmt)
