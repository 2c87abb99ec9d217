"""Existing files, and writes that cannot be carried out."""
import os, tempfile, resource, stat, signal
import numpy as np
from common import *
import ref, rio, lattio, prog
from glu import P, Capture
PROP = "I04"; LEVEL = "exploration"
RULE = ("write_configuration and every writing mode of the program aimed at paths that hold something (files of any size and content, links, directories, pipes) and at writes that fail "
        "(missing or non-directories, names too long, no file descriptors, devices that fill up after any number of bytes): the failure is reported, nothing that existed changes, nothing crashes, and with room for exactly the file it succeeds; "
        "distinct by variant, format, mode, obstacle and place of the fault")
ASSUMPTIONS = ["a full device is a file size limit with its signal ignored: the write of the byte beyond it fails",
               "run as root, so permission bits do not obstruct"]
MIN_SIGS = 200
VAR = ["nc3", "nc2", "nc4", "nc5nd3", "nc3_san"]
BUILDS = VAR
TIMEOUT = 120
OBST = ["file", "empty", "big", "symlink", "dangling", "directory", "fifo", "nodir", "notdir", "longname", "nofd", "emptyname"]
MODES = ["REWRITE", "GAUGE_FIXING", "SMEARING", "SUNCxU1", "HEATBATH"]

def fm(N, ND): return [f for f in rio.FORMATS if (f != "CERN" or (N, ND) == (3, 4)) and (f != "NERSC_SMALL" or N < 4)]

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; rep = 1 if tier == "quick" else 10
    for k in range(rep):
        for v in VAR:
            N, ND = ncnd(v)
            def dm(f): return dims_of(r, ND, 2, 4, 80, even=f == "CERN")
            for f in fm(N, ND):
                out.append(dict(variant=v, label="lib/" + f, fmt=f, dims=dm(f), seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 9))))
                out.append(dict(variant=v, label="full/" + f, fmt=f, dims=dm(f), seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 9))))
                for m in MODES:
                    out.append(dict(variant=v, label="program/" + m + "/" + f, mode=m, fmt=f, dims=dm(f), seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 9)), n=6))
    return out

def snap(top):
    """everything below, without following links"""
    d = {}
    for a, ds, fs in os.walk(top):
        for n in ds + fs:
            p = os.path.join(a, n); s = os.lstat(p)
            d[os.path.relpath(p, top)] = (stat.S_IFMT(s.st_mode), s.st_ino, s.st_nlink if not stat.S_ISDIR(s.st_mode) else 0, os.readlink(p) if stat.S_ISLNK(s.st_mode) else open(p, "rb").read() if stat.S_ISREG(s.st_mode) else None)
    return d

class Limit:
    def __init__(self, n): self.n = n
    def __enter__(self): self.old = resource.getrlimit(resource.RLIMIT_FSIZE); resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))
    def __exit__(self, *a): resource.setrlimit(resource.RLIMIT_FSIZE, self.old)

def obstruct(wd, kind, r):
    """-> path to write to, whether it is an existing thing"""
    p = os.path.join(wd, "conf")
    if kind == "file": open(p, "wb").write(r.integers(0, 256, int(r.integers(1, 5000)), dtype=np.uint8).tobytes())
    elif kind == "empty": open(p, "wb").close()
    elif kind == "big": open(p, "wb").write(b"x" * 300000)
    elif kind == "symlink": open(os.path.join(wd, "target"), "wb").write(b"precious"); os.symlink("target", p)
    elif kind == "dangling": os.symlink("nowhere", p)
    elif kind == "directory": os.mkdir(p)
    elif kind == "fifo": os.mkfifo(p); return p
    elif kind == "nodir": p = os.path.join(wd, "no", "conf")
    elif kind == "notdir": open(os.path.join(wd, "f"), "wb").write(b"f"); p = os.path.join(wd, "f", "conf")
    elif kind == "longname": p = os.path.join(wd, "n" * 300)
    elif kind == "emptyname": p = ""
    return p

def run(c, g):
    R = Report(); r = rng_of(c["seed"]); N, ND = g.NC, g.ND; dims = c["dims"]; fmt = c["fmt"]; V = int(np.prod(dims)); lab = c["label"].split("/")[0]
    U = ref.field(r, dims, N, "hot")
    for _ in range(20):
        if fmt != "NERSC_SMALL" or rio.short_conditioning(U) < 1e8: break
        U = ref.field(r, dims, N, "hot")
    ctx0 = "%s %s dims %s threads %d" % (g.variant, fmt, dims, c["threads"])
    if lab == "lib":
        for kind in OBST:
            if kind == "fifo": continue     # opening one waits for its other end
            with tempfile.TemporaryDirectory(prefix="glui04") as wd:
                p = obstruct(wd, kind, r); before = snap(wd); ctx = ctx0 + " " + kind
                S = lattio.setup(g); g.setup(dims, c["threads"], 3, rio.header_of(fmt)); q = g.lat(U)
                old = resource.getrlimit(resource.RLIMIT_NOFILE)
                with Capture(g.B) as cap:
                    if kind == "nofd":
                        n = len(os.listdir("/proc/self/fd")); resource.setrlimit(resource.RLIMIT_NOFILE, (3, old[1]))
                    try: st = S.u_write(q, os.fsencode(p), rio.STORAGE[fmt], b"test")
                    finally: resource.setrlimit(resource.RLIMIT_NOFILE, old)
                A = g.get(q); g.free(q); R.ok(n=2)
                if st == 0: R.bad("reported/" + kind, "%s: success is returned: %s" % (ctx, cap.text[-300:]))
                if snap(wd) != before: R.bad("changed/" + kind, "%s: what was there changed: %s" % (ctx, sorted(set(snap(wd)) ^ set(before)) or "contents"))
                R.near("field", A, U, 1e-12, ctx); R.ok("%s/%s/%s" % (g.variant, fmt, kind))
    elif lab == "full":
        with tempfile.TemporaryDirectory(prefix="glui04") as wd:
            st, txt = lattio.write(g, dims, U, os.path.join(wd, "whole"), fmt, 5, b"test", c["threads"])
            if st: R.bad("write", "%s: fails: %s" % (ctx0, txt[-300:])); return R.out()
            n = os.path.getsize(os.path.join(wd, "whole"))
            pts = {0, 1, 7, n - 1, n - 2, n // 2, n - 100, 4095, 4096, 4097} | {int(x) for x in r.integers(n, size=6)} | {n, n + 1}
            for k in sorted(x for x in pts if 0 <= x <= n + 1):
                p = os.path.join(wd, "conf%d" % k)
                with Limit(k): st, txt = lattio.write(g, dims, U, p, fmt, 5, b"test", c["threads"])
                R.ok("%s/%s/full %s" % (g.variant, fmt, k))
                left = os.path.getsize(p) if os.path.exists(p) else -1
                if k < n and st == 0: R.bad("reported/full", "%s: room for %d of %d bytes, %d there, and success is returned" % (ctx0, k, n, left))
                if k >= n and (st != 0 or left != n): R.bad("reported/room", "%s: room for %d bytes, %d needed, but %d is returned and %d bytes there" % (ctx0, k, n, st, left))
    else:
        mode = c["mode"]; mem = prog.tight(N, ND, V)
        over = dict(MODE=mode, STORAGE=fmt, HEADER="NERSC", U1_ALPHA="0.05", MAX_ITERS=30, ACCURACY=3)
        if mode == "HEATBATH": over.update(HEADER="UNIT", ITERS=3, SAVE=1, THERM=1)
        if mode == "GAUGE_FIXING": over.update(GFTYPE="AXIALT")
        s = prog.with_dims(prog.settings(ND, **over), dims)
        b = rio.encode("NERSC_NCxNC", dims, U)
        def go(wd, conf, out, limit=None, k=0):
            return prog.run(g, wd, s, conf, out, c["threads"], mem if k & 1 else None, pre=None if limit is None else lambda: (signal.signal(signal.SIGXFSZ, signal.SIG_IGN), resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))))
        if mode == "SUNCxU1" and g.variant.startswith("nc4") and not g.variant.startswith("nc4gsl"): return R.out()   # needs FFTW
        with tempfile.TemporaryDirectory(prefix="glui04") as wd:
            open(os.path.join(wd, "in"), "wb").write(b)
            q = go(wd, "in", "conf"); name = "conf" if mode != "HEATBATH" else "in.2"; ctx = ctx0 + " " + mode
            p = os.path.join(wd, name); R.ok()
            if q.rc != 0 or not os.path.exists(p): R.bad("program/works", "%s: ended with %s without obstacles: %s" % (ctx, q.rc, q.text[-600:])); return R.out()
            n = os.path.getsize(p)
            if mode == "HEATBATH":
                # trajectories in the way, then a full device
                for kind in ("file", "directory"):
                    with tempfile.TemporaryDirectory(prefix="glui04") as w2:
                        t = obstruct(w2, kind, r); os.rename(t, os.path.join(w2, "in.2")); before = snap(w2)
                        q = go(w2, "in", "x"); R.ok(n=2)
                        if q.crashed: R.bad("program/crash/" + kind, "%s %s: ended with %s: %s" % (ctx, kind, q.rc, q.text[-600:]))
                        elif not q.failed: R.bad("program/reported/HEATBATH/" + kind, "%s %s: exit status 0" % (ctx, kind))
                        if {k: v for k, v in snap(w2).items() if k in before} != before: R.bad("program/changed/HEATBATH/" + kind, "%s %s: what was there changed" % (ctx, kind))
                        R.ok("%s/%s/HEATBATH/%s" % (g.variant, fmt, kind))
                for k in (0, int(r.integers(1, n)), n - 1):
                    with tempfile.TemporaryDirectory(prefix="glui04") as w2:
                        q = go(w2, "in", "x", k); R.ok("%s/%s/HEATBATH/full %d" % (g.variant, fmt, k))
                        if q.crashed: R.bad("program/crash/full", "%s room for %d of %d bytes: ended with %s: %s" % (ctx, k, n, q.rc, q.text[-600:]))
                        elif not q.failed: R.bad("program/reported/HEATBATH/full", "%s room for %d of %d bytes: exit status 0" % (ctx, k, n))
                return R.out()
            for i, kind in enumerate(OBST[int(x)] for x in r.permutation(len(OBST) - 1)[:c["n"]]):
                if kind in ("nofd", "fifo"): continue
                with tempfile.TemporaryDirectory(prefix="glui04") as w2, tempfile.TemporaryDirectory(prefix="glui04") as w3:
                    t = obstruct(w2, kind, r); open(os.path.join(w3, "in"), "wb").write(b); before = snap(w2)
                    q = go(w3, "in", t, None, i); R.ok(n=2)
                    if q.crashed: R.bad("program/crash/" + kind, "%s %s: ended with %s: %s" % (ctx, kind, q.rc, q.text[-600:]))
                    elif not q.failed: R.bad("program/reported/%s/%s" % (mode, kind), "%s %s: exit status 0: %s" % (ctx, kind, q.text[-300:]))
                    if snap(w2) != before: R.bad("program/changed/%s/%s" % (mode, kind), "%s %s: what was there changed" % (ctx, kind))
                    R.ok("%s/%s/%s/%s" % (g.variant, fmt, mode, kind))
            # the configuration itself as the output
            q = go(wd, "in", "in"); R.ok()
            if not q.failed or q.crashed: R.bad("program/reported/%s/itself" % mode, "%s onto its own input: ended with %s" % (ctx, q.rc))
            if open(os.path.join(wd, "in"), "rb").read() != b: R.bad("program/changed/%s/itself" % mode, "%s onto its own input: it changed" % ctx)
            for i, k in enumerate(sorted({0, int(r.integers(1, n)), int(r.integers(1, n)), n - 1, n})):
                with tempfile.TemporaryDirectory(prefix="glui04") as w3:
                    open(os.path.join(w3, "in"), "wb").write(b)
                    q = go(w3, "in", "conf", k, i); R.ok("%s/%s/%s/full %d" % (g.variant, fmt, mode, k))
                    if q.crashed: R.bad("program/crash/full", "%s room for %d of %d bytes: ended with %s: %s" % (ctx, k, n, q.rc, q.text[-600:]))
                    elif k < n and not q.failed: R.bad("program/reported/%s/full" % mode, "%s room for %d of %d bytes: exit status 0" % (ctx, k, n))
                    elif k >= n and mode == "REWRITE" and q.failed: R.bad("program/reported/room", "%s room for %d of %d bytes: exit status %s" % (ctx, k, n, q.rc))
    return R.out()
