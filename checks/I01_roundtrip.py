"""Configurations written by the library and read back by it."""
import os, tempfile, hashlib
import numpy as np
from common import *
import ref, rio, lattio, prog
PROP = "I01"; LEVEL = "exploration"
RULE = ("fields of every kind written by write_configuration in every storage format and read back by read_file, and files rewritten by the real program "
        "(also when little memory is reported, which selects the other reader and writer); variants, extents 1-8, thread counts 1-9, labels, flow numbers; "
        "distinct by variant, format, field kind, extents, threads and path")
ASSUMPTIONS = ["NERSC_SMALL keeps 8 (3 for SU(2)) numbers of each link and cannot tell apart links where these are singular; away from that the tolerance follows the conditioning, and the unit field must survive",
               "openQCD (CERN) files exist for SU(3) in four dimensions with even extents"]
MIN_SIGS = 150
VAR = ["nc3", "nc2", "nc4", "nc5nd3", "nc4gsl", "nc3nosse", "nc2nosse", "nc3nd3", "nc2nd3", "nc5"]
BUILDS = VAR
KINDS = ["hot", "warm", "smooth", "unit", "gaugeunit", "diag", "center"]

def formats(N, ND, dims=None):
    return [f for f in rio.FORMATS if (f != "CERN" or ((N, ND) == (3, 4) and (dims is None or all(d % 2 == 0 for d in dims)))) and (f != "NERSC_SMALL" or N < 4)]
def usable(fmt, kind): return fmt != "NERSC_SMALL" or kind not in ("diag", "center")

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; rep = 1 if tier == "quick" else 8
    for k in range(rep):
        for v in VAR:
            N, ND = ncnd(v); main = v in ("nc3", "nc2", "nc4", "nc5nd3")
            for f in formats(N, ND):
                for kind in (KINDS if main else [KINDS[int(i)] for i in r.permutation(7)[:2]]):
                    if not usable(f, kind): continue
                    d = dims_of(r, ND, 1, 7, 700 if N < 4 else 300, even=f == "CERN")
                    out.append(dict(variant=v, label="lib/" + f, kind=kind, fmt=f, dims=d, seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 10))))
            # what a format cannot hold is not written as though it could: openQCD files of odd extents, other dimensions, NERSC_SMALL of more colours
            for i in range(ND + 1 if main else 1):
                d = dims_of(r, ND, 2, 5, 250, even=True)
                for a in r.permutation(ND)[:1 + int(r.integers(2))] if i >= ND else [i]: d[int(a)] = 2 * (d[int(a)] // 2) + 1
                out.append(dict(variant=v, label="lib/cannot", fmt="CERN", dims=d, seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 10))))
            if N > 3: out.append(dict(variant=v, label="lib/cannot", fmt="NERSC_SMALL", dims=dims_of(r, ND, 2, 5, 250), seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 10))))
            if main:
                fs = formats(N, ND)
                for i, f in enumerate(fs):
                    out.append(dict(variant=v, label="program/" + f, fmt=f, dims=big_dims(r, ND, 2500, 6000, even="CERN" in fs), seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 9)), mem=(i + k) % 2))
            if main or v == "nc3nd3":
                fs = formats(N, ND)
                for f in fs:
                    d = dims_of(r, ND, 1, 6, 500 if N < 4 else 200, even="CERN" in fs)
                    out.append(dict(variant=v, label="program/" + f, fmt=f, dims=d, seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 9)), mem=int(r.integers(0, 3))))
    return out

def tol(fmt, U): return 2e-13 if fmt != "NERSC_SMALL" else max(2e-13, 2e-15 * rio.short_conditioning(U))

def field(c, N, r):
    """NERSC_SMALL: keep away from its singular points, except that trivial links are representable"""
    for _ in range(50):
        U = ref.field(r, c["dims"], N, c.get("kind", "hot"))
        if c["fmt"] != "NERSC_SMALL" or c.get("kind") == "unit" or rio.short_conditioning(U) < 1e8: return U
    return None

def run(c, g):
    R = Report(); r = rng_of(c["seed"]); N, ND = g.NC, g.ND; dims = c["dims"]; fmt = c["fmt"]
    with tempfile.TemporaryDirectory(prefix="glui01") as wd:
        if c["label"] == "lib/cannot":
            U = ref.field(r, dims, N, "hot"); path = os.path.join(wd, "conf"); ctx = "%s %s dims %s threads %d" % (g.variant, fmt, dims, c["threads"])
            st, txt = lattio.write(g, dims, U, path, fmt, 5, b"x", c["threads"]); R.ok()
            A, d, _, t2 = lattio.read(g, path, rio.header_of(fmt), 1) if os.path.exists(path) else (None, None, 0, "")
            if not st and A is None: R.bad("cannot/" + fmt, "%s: reported as written and then not readable: %s" % (ctx, t2[-300:]))
            if A is not None and (st or d != dims or not abs(A - U).max() < 1e-9) and not lattio.complaint(t2):
                R.bad("cannot/" + fmt, "%s: %s, read back without complaint as %s%s" % (ctx, "refused" if st else "written", d, "" if d != dims else ", %.3g away" % abs(A - U).max()))
            R.ok("%s/cannot/%s/%s" % (g.variant, fmt, dims)); return R.out()
        if c["label"].startswith("lib"):
            U = field(c, N, r)
            if U is None: return R.out()
            flow = int(r.integers(0, [100000, 1 << 31][int(r.integers(2))])); det = [b"x", b"2+1DWF_b2.25_TEST", b"a" * 60, b"quenched"][int(r.integers(4))]
            ctx = "%s %s %s dims %s threads %d" % (g.variant, fmt, c["kind"], dims, c["threads"])
            path = os.path.join(wd, "conf"); keep = []
            st, txt = lattio.write(g, dims, U, path, fmt, flow, det, c["threads"], keep); R.ok()
            if st: R.bad("write/" + fmt, "%s: writing fails: %s" % (ctx, txt[-500:])); return R.out()
            R.near("held/" + fmt, keep[0], U, 1e-12, ctx + ": field in memory after writing")
            start = [int(x) for x in r.integers(1, 5, ND)]
            A, d, fl, txt = lattio.read(g, path, rio.header_of(fmt), int(r.integers(1, 10)), start); R.ok()
            if A is None: R.bad("read/" + fmt, "%s: reading what was written fails: %s" % (ctx, txt[-600:])); return R.out()
            if d != dims: R.bad("extents/" + fmt, "%s: read back as %s" % (ctx, d)); return R.out()
            if lattio.complaint(txt): R.bad("checks/" + fmt, "%s: the reader complains: %s" % (ctx, lattio.complaint(txt)))
            if fmt.startswith("NERSC") and fl != flow: R.bad("sequence", "%s: number %d read back as %d" % (ctx, flow, fl))
            t = tol(fmt, U) if c["kind"] != "unit" else 2e-13
            if R.near("links/" + fmt, A, U, t, ctx): R.ok("%s/%s/%s/%s/%d" % (g.variant, fmt, c["kind"], dims, c["threads"]))
            # again: nothing but rounding accumulates
            st, _ = lattio.write(g, dims, A, path + "2", fmt, flow, det, 1)
            if st: R.bad("rewrite/" + fmt, "%s: rewriting fails" % ctx); return R.out()
            B, d, _, txt = lattio.read(g, path + "2", rio.header_of(fmt), 1, start)
            if B is None: R.bad("reread/" + fmt, "%s: reading the rewritten file fails: %s" % (ctx, txt[-400:])); return R.out()
            if d == dims: R.near("relinks/" + fmt, B, U, 2 * t, ctx + " second time")
        else:
            # a chain through the real program, one format after the other
            U = field(dict(c, kind="hot", fmt="NERSC_SMALL" if N < 4 else fmt), N, r)
            if U is None: return R.out()
            fs = formats(N, ND, dims); fs = [fmt] + [fs[int(i)] for i in r.permutation(len(fs))[:3]] + [fmt]
            V = int(np.prod(dims)); t = sum(tol(f, U) for f in fs) + tol("NERSC_NCxNC", U); mem = prog.tight(N, ND, V) if c["mem"] else None
            open(os.path.join(wd, "c0"), "wb").write(rio.encode("NERSC_NCxNC", dims, U)); prev = "NERSC_NCxNC"
            ctx = "%s program dims %s threads %d %s chain %s" % (g.variant, dims, c["threads"], "little memory" if mem else "", fs)
            for k, f in enumerate(fs):
                s = prog.settings(ND, HEADER=prog.HEADERTAG[prev], STORAGE=f); q = prog.run(g, wd, s, "c%d" % k, "c%d" % (k + 1), c["threads"], mem); R.ok()
                if q.rc != 0 or not os.path.exists(os.path.join(wd, "c%d" % (k + 1))):
                    R.bad("program/status/" + prev + "-" + f, "%s: rewriting %s to %s ended with %s: %s" % (ctx, prev, f, q.rc, q.text[-600:])); return R.out()
                if lattio.complaint(q.text): R.bad("program/checks/" + prev, "%s: %s" % (ctx, lattio.complaint(q.text)))
                if mem: R.obs["little memory"] = 1.0
                prev = f
            A, d, _, txt = lattio.read(g, os.path.join(wd, "c%d" % len(fs)), rio.header_of(prev), 1)
            if A is None: R.bad("program/read/" + prev, "%s: %s" % (ctx, txt[-400:])); return R.out()
            if d != dims: R.bad("program/extents", "%s: %s" % (ctx, d)); return R.out()
            if R.near("program/links/" + "-".join(fs), A, U, t, ctx): R.ok("prog/%s/%s/%s/%d/%s" % (g.variant, "-".join(fs), dims, c["threads"], bool(mem)))
    return R.out()
