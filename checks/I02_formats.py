"""Written files decoded, and files encoded for reading, by an independent implementation of each format."""
import os, tempfile
import numpy as np
from common import *
import ref, rio, lattio, prog
PROP = "I02"; LEVEL = "exploration"
RULE = ("every file the library or the program writes is decoded by an independent implementation of its format (header, extents, framing, byte order, site and link order, checksums, plaquette, trace); "
        "independently encoded files in every byte order, precision and header style the formats allow are read and compared link by link; distinct by variant, direction, format, precision, byte order, style, extents")
ASSUMPTIONS = ["lib/rio.py implements the formats: NERSC archive, MILC version 5, LIME/SciDAC/ILDG, BQCD, HiRep, openQCD; MILC double precision checksums are those GLU documents (both words of a number at one rank)",
               "what GLU writes is double precision, NERSC header numbers are compared to 1e-12"]
MIN_SIGS = 200
VAR = ["nc3", "nc2", "nc4", "nc5nd3", "nc4gsl", "nc3nosse", "nc3nd3", "nc2nd3", "nc5"]
BUILDS = VAR

def fm(N, ND): return [f for f in rio.FORMATS if (f != "CERN" or (N, ND) == (3, 4)) and (f != "NERSC_SMALL" or N < 4)]

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; rep = 1 if tier == "quick" else 10
    def add(v, label, f, **k):
        N, ND = ncnd(v)
        b = k.pop("big", 0)
        d = dims_of(r, ND, 1 if f != "BQCD" else 2, 7, (600 if N < 4 else 250) if f != "BQCD" else 40, even=f == "CERN") if not b else big_dims(r, ND, b, int(1.5 * b), even=f == "CERN")
        out.append(dict(variant=v, label=label + "/" + f, fmt=f, dims=d, seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 9)), **k))
    for k in range(rep):
        for v in VAR:
            N, ND = ncnd(v); main = v in ("nc3", "nc2", "nc4", "nc5nd3")
            for f in fm(N, ND):
                for i in range(4 if main else 1): add(v, "write", f, kind=["hot", "warm", "smooth", "gaugeunit"][i])
                if main:
                    for m in (0, 1): add(v, "rewrite", f, mem=m)
                    # more sites than a sixteen bit counter of numbers, of sites can hold
                    add(v, "rewrite", f, mem=k % 2, big=2500); add(v, "rewrite", f, mem=1 - k % 2, big=4000)
                    if v in ("nc2", "nc3"): add(v, "write", f, kind="smooth", big=66000 if v == "nc2" or k else 9000)
            for f in fm(N, ND) + ["BQCD", "LIME", "JLQCD"]:
                pe = [("D", "big")] if f in ("HIREP", "JLQCD", "CERN") else [("D", "big"), ("F", "big")] if f in ("ILDG", "SCIDAC", "BQCD", "LIME") else [("D", "big"), ("D", "little"), ("F", "big"), ("F", "little")]
                for p, e in pe:
                    if main and f != "BQCD":
                        add(v, "read", f, prec=p, endian=e, style=int(r.integers(0, 12)), mem=k % 2, big=2500)
                        add(v, "read", f, prec=p, endian=e, style=int(r.integers(0, 12)), mem=1 - k % 2, big=66000 if v == "nc2" and (p, e) == ("D", "big") else 3000)
                    for i in range((3 if p == "F" else 5) if main else 1): add(v, "read", f, prec=p, endian=e, style=int(r.integers(0, 12)), mem=int(r.integers(0, 3)) if main and i == 0 else 0)
    return out

def style_of(i, r, fmt, N):
    s = {}
    if fmt.startswith("NERSC"):
        if i & 1: s["shuffle"] = int(r.integers(1000))
        if i & 2: s["fp32"] = "IEEE32"
        if i & 4: s["hex"] = ["%X", "%08x", "%x"][int(r.integers(3))]
    else:
        if i & 1 and N == 3: s["field"] = " su3gauge "
        if i & 2: s["qio"] = fmt in ("ILDG", "SCIDAC")
        if i & 4: s["lfn"] = False
        if i & 8: s["dimpad"] = " "
    return s

def singular(fmt, U): return fmt == "NERSC_SMALL" and rio.short_conditioning(U) > 1e8

def judge(R, g, fmt, b, dims, U, flow, det, ctx, loss=0.0):
    D = rio.decode(fmt, b, g.NC, g.ND)
    R.ok(n=1 + len(D["checks"]))
    for p in D["problems"]: R.bad("written/" + fmt + "/framing", "%s: %s" % (ctx, p))
    if D["problems"] or "U" not in D: return False
    if D["dims"] != dims: R.bad("written/" + fmt + "/extents", "%s: %s in the header" % (ctx, D["dims"])); return False
    if D["prec"] != "8": R.bad("written/" + fmt + "/precision", "%s: %s bytes" % (ctx, D["prec"]))
    for n, a, c, t in D["checks"]:
        if fmt == "NERSC_SMALL" and t: t = max(t, 1e-14 * rio.short_conditioning(U))
        if not abs(a - c) <= t * (1 + abs(c)): R.bad("written/" + fmt + "/" + n, "%s: %s is %r in the header, the links in the file give %r" % (ctx, n, a, c))
    if flow is not None and D["flow"] is not None and D["flow"] != flow: R.bad("written/sequence", "%s: number %d instead of %d" % (ctx, D["flow"], flow))
    if fmt.startswith("NERSC") and D["label"] != det: R.bad("written/label", "%s: label %r instead of %r" % (ctx, D["label"], det))
    t = 2e-13 if fmt != "NERSC_SMALL" else max(2e-13, 5e-15 * rio.short_conditioning(U))
    return R.near("written/" + fmt + "/links", D["U"], U, t + loss, ctx)

def run(c, g):
    R = Report(); r = rng_of(c["seed"]); N, ND = g.NC, g.ND; dims = c["dims"]; fmt = c["fmt"]; lab = c["label"].split("/")[0]
    U = ref.field(r, dims, N, c.get("kind", ["hot", "warm", "smooth"][int(r.integers(3))]))
    if singular(fmt, U): return R.out()
    V = int(np.prod(dims)); det = ["x", "2+1DWF_b2.25_TEST", "quenched_b6.0"][int(r.integers(3))]
    with tempfile.TemporaryDirectory(prefix="glui02") as wd:
        path = os.path.join(wd, "conf")
        if lab == "write":
            flow = int(r.integers(0, [100000, 1 << 31][int(r.integers(2))]))
            ctx = "%s %s %s dims %s threads %d" % (g.variant, fmt, c["kind"], dims, c["threads"])
            st, txt = lattio.write(g, dims, U, path, fmt, flow, det.encode(), c["threads"]); R.ok()
            if st: R.bad("write/" + fmt, "%s: fails: %s" % (ctx, txt[-400:])); return R.out()
            if judge(R, g, fmt, open(path, "rb").read(), dims, U, flow, det, ctx): R.ok("w/%s/%s/%s/%s" % (g.variant, fmt, c["kind"], dims))
        elif lab == "rewrite":
            mem = prog.tight(N, ND, V) if c["mem"] else None
            open(os.path.join(wd, "in"), "wb").write(rio.encode("NERSC_NCxNC", dims, U, flow=321))
            ctx = "%s program to %s dims %s threads %d%s" % (g.variant, fmt, dims, c["threads"], " little memory" if mem else "")
            q = prog.run(g, wd, prog.settings(ND, STORAGE=fmt, CONFIG_INFO=det), "in", "conf", c["threads"], mem); R.ok()
            if q.rc != 0 or not os.path.exists(path): R.bad("rewrite/" + fmt, "%s: ended with %s: %s" % (ctx, q.rc, q.text[-500:])); return R.out()
            if lattio.complaint(q.text): R.bad("read/NERSC/checks", "%s: %s" % (ctx, lattio.complaint(q.text)))
            if judge(R, g, fmt, open(path, "rb").read(), dims, U, 321, det, ctx): R.ok("p/%s/%s/%s/%s" % (g.variant, fmt, bool(mem), dims))
        else:
            sty = style_of(c["style"], r, fmt, N)
            b = rio.encode(fmt, dims, U, c["prec"], c["endian"], flow=654, style=sty, extra=[(b"someones-record", b"\1\2<xml>" * 3)] if c["style"] & 8 else ())
            open(path, "wb").write(b)
            ctx = "%s reading %s %s %s style %s dims %s threads %d" % (g.variant, fmt, c["prec"], c["endian"], sty, dims, c["threads"])
            head = rio.HEADER[fmt.split("_")[0]]; K = fmt + "/" + c["prec"] + "/" + c["endian"]
            t = 2e-13 if c["prec"] == "D" else 5e-7
            if fmt == "NERSC_SMALL": t *= 5e-2 * rio.short_conditioning(U) if c["prec"] == "F" else max(1, 1e-2 * rio.short_conditioning(U))
            if t > 1e-2: return R.out()
            if c["mem"]:
                # the program, told there is little memory; what it read is seen in an NCxNC file
                q = prog.run(g, wd, prog.settings(ND, HEADER=prog.HEADERTAG[fmt], **({"DIM_%d" % i: d for i, d in enumerate(dims)} if fmt == "JLQCD" else {})), "conf", "out", c["threads"], prog.tight(N, ND, V)); R.ok()
                if q.rc != 0 or not os.path.exists(os.path.join(wd, "out")): R.bad("read/" + K + "/refused", "%s little memory: ended with %s: %s" % (ctx, q.rc, q.text[-500:])); return R.out()
                if lattio.complaint(q.text): R.bad("read/" + K + "/checks", "%s little memory: %s" % (ctx, lattio.complaint(q.text)))
                D = rio.decode("NERSC_NCxNC", open(os.path.join(wd, "out"), "rb").read(), N, ND)
                if D["problems"] or D["dims"] != dims: R.bad("read/" + K + "/extents", "%s little memory: %s %s" % (ctx, D["problems"], D.get("dims"))); return R.out()
                A = D["U"]; txt = q.text
            else:
                A, d, fl, txt = lattio.read(g, path, head, c["threads"], dims if fmt == "JLQCD" else [int(x) for x in r.integers(1, 5, ND)]); R.ok()
                if A is None: R.bad("read/" + K + "/refused", "%s: a valid file is refused: %s" % (ctx, txt[-500:])); return R.out()
                if d != dims: R.bad("read/" + K + "/extents", "%s: extents %s" % (ctx, d)); return R.out()
                if lattio.complaint(txt): R.bad("read/" + K + "/checks", "%s: %s" % (ctx, lattio.complaint(txt)))
                if fmt.startswith("NERSC") and fl != 654: R.bad("read/sequence", "%s: number %d" % (ctx, fl))
            if R.near("read/" + K + "/links", A, U, t, ctx): R.ok("r/%s/%s/%s/%s/%d" % (g.variant, K, dims, sorted(sty), c["mem"]))
    return R.out()
