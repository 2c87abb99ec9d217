"""The program as a whole: what a run reads, does, prints and writes."""
import ctypes, os, re, shutil, tempfile
import numpy as np
from common import *
import ref, rio, prog, rcuts, rgf
from glu import P, Capture
PROP = "P02"; LEVEL = "exploration"
RULE = ("the real program is run with generated input files on independently encoded configurations (every readable format, generated starts) in every mode; its printed observables are compared with numpy, "
        "its output, decoded independently, with the configuration after the library's lower level routines were applied to the same links in the same order with the same seed, its correlator and update files byte by byte; "
        "with every amount of memory from too little to plenty it has to give the same answer or fail; unreadable, damaged, foreign or absent configurations must give a nonzero status and no file; "
        "distinct by variant, mode, options, formats and threads")
ASSUMPTIONS = ["iterative gauge fixing and updates are compared link by link for one thread only, with more threads by their invariants",
               "cuts and updates write their own files and ignore -o",
               "an option a mode does not use does not influence it"]
MIN_SIGS = 150
TIMEOUT = 300
VAR = ["nc3", "nc2", "nc4", "nc5nd3", "nc3nd3", "nc3nofft"]
BUILDS = VAR
FMT = {"NERSC_SMALL": 1, "NERSC_GAUGE": 2, "NERSC_NCxNC": 3, "MILC": 4, "ILDG": 5, "SCIDAC": 6, "HIREP": 7, "CERN": 8}
HEADS = {"NERSC": 1, "HIREP": 2, "MILC": 3, "SCIDAC": 4, "ILDG_SCIDAC": 5, "ILDG_BQCD": 6, "JLQCD": 7, "LIME": 8, "CERN": 9, "RANDOM": 10, "UNIT": 11, "INSTANTON": 12}
SM = {"APE": 1, "STOUT": 2, "LOG": 3, "HYP": 4, "HEX": 5, "HYL": 6, "WFLOW_STOUT": 7, "WFLOW_LOG": 8, "ADAPTWFLOW_STOUT": 9, "ADAPTWFLOW_LOG": 10}
CUT = {"EXCEPTIONAL": "EXCEPTIONAL", "NON_EXCEPTIONAL": "NONEXCEPTIONAL", "FIELDS": "FIELDS", "SMEARED_GLUONS": "SMEARED_GLUONS", "INSTANTANEOUS_GLUONS": "INSTANTANEOUS_GLUONS", "CONFIGSPACE_GLUONS": "CONFIGSPACE_GLUONS",
       "GLUON_PROPS": "GLUON_PROPS", "STATIC_POTENTIAL": "STATIC_POTENTIAL", "TOPOLOGICAL_CORRELATOR": "TOPOLOGICAL_CORRELATOR", "TOPOLOGICAL_MOMENTS": "TOPOLOGICAL_MOMENTS", "TOPOLOGICAL_SUSCEPTIBILITY": "TOPOLOGICAL_SUSCEPTIBILITY"}
MOMCUT = {"HYPERCUBIC_CUT": "HYPERCUBIC_CUT", "SPHERICAL_CUT": "PSQ_CUT", "CYLINDER_CUT": "CYLINDER_CUT", "CONICAL_CUT": "CYLINDER_AND_CONICAL_CUT"}

def readable(N, ND): return [f for f in rio.FORMATS if (f != "CERN" or (N, ND) == (3, 4)) and (f != "NERSC_SMALL" or N < 4)] + ["BQCD", "LIME", "JLQCD"]
def writable(N, ND): return [f for f in FMT if (f != "CERN" or ND == 4) and (f != "NERSC_SMALL" or N < 4)]

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; rep = 1 if tier == "quick" else 12
    for k in range(rep):
        for v in VAR:
            N, ND = ncnd(v); few = v != "nc3"
            ins = readable(N, ND) + ["RANDOM", "UNIT"] + (["INSTANTON"] if v == "nc3" else []); outs = writable(N, ND)
            n = 0
            def add(label, **o):
                nonlocal n; n += 1
                i = o.pop("inp", None) or ins[int(r.integers(len(ins)))]; w = o.pop("out", None) or outs[int(r.integers(len(outs)))]
                even = "CERN" in (i, w) or label == "u1" and False
                d = o.pop("dims", None) or dims_of(r, ND, 2, 5 if N < 4 else 4, 200 if N < 4 else 90, even)
                if i == "BQCD": d = dims_of(r, ND, 2, 4, 64, even)
                if w == "NERSC_SMALL" and label not in ("rewrite", "smear"): w = "NERSC_GAUGE"      # singular for links near one
                if i == "INSTANTON": d = [4, 4, 4, 4]
                out.append(dict(variant=v, label=label, inp=i, out=w, dims=[int(x) for x in d], seed=int(r.integers(1, 1 << 31)), threads=int(r.choice([1, 1, 2, 3, 8])), **o))
            for i in ins if not few else [ins[int(a)] for a in r.permutation(len(ins))[:4]]: add("rewrite", inp=i, rt=int(r.integers(2)))
            for w in outs if not few else [outs[int(a)] for a in r.permutation(len(outs))[:2]]: add("rewrite", out=w, rt=0)
            for t in SM:
                if t.endswith("LOG") and N > 4: continue
                if few and r.random() < 0.4: continue
                for sp in (0, 1) if "FLOW" not in t else (0,): add("smear", type=t, spatial=sp, rt=int(r.random() < 0.3), iters=int(r.integers(1, 4)))
            add("smear", type="NOTHING", spatial=0, rt=1, iters=2); add("smear", type="STOUT", spatial=0, rt=0, iters=0)
            for t in ("LANDAU", "COULOMB", "COULOMB_RESIDUAL", "AXIALT", "MAG", "NONE"):
                for j in range(2 if t in ("LANDAU", "COULOMB_RESIDUAL") and not few else 1):
                    add("fix", type=t, rt=int(r.integers(2)), threads_=1, acc=int(r.integers(6, 13)), out="NERSC_NCxNC" if r.random() < 0.6 else None, inp=None if r.random() < 0.5 else "NERSC_NCxNC")
            for t in CUT:
                if few and r.random() < 0.5: continue
                add("cut", type=t, inp=str(r.choice(["NERSC_NCxNC", "MILC", "UNIT", "RANDOM", "ILDG", "SCIDAC"])), dims=[4] * ND if t == "NON_EXCEPTIONAL" else None)
            add("u1", rt=int(r.integers(2))); add("u1", rt=0)
            for i in ("UNIT", "RANDOM", "NERSC_NCxNC", "ILDG"): add("hb", inp=i)
            add("memory", mode="REWRITE"); add("memory", mode="SMEARING"); add("memory", mode="GAUGE_FIXING"); add("memory", mode="CUTTING", inp="NERSC_NCxNC"); add("memory", mode="HEATBATH", inp="UNIT"); add("memory", mode="SUNCxU1")
            add("bad"); add("bad"); add("cli", inp="NERSC_NCxNC", out="NERSC_NCxNC")
    return [c for c in out]

def options(r, c, N, ND):
    """an input file in which everything the mode does not use is arbitrary"""
    p = lambda *a: str(r.choice(a))
    s = prog.settings(ND, CONFNO=int(r.integers(0, 5000)), SEED=c["seed"], STORAGE=c["out"] if not (c["out"].startswith("NERSC") and False) else c["out"], RANDOM_TRANSFORM="YES" if c.get("rt") else "NO",
        GFTYPE=p("LANDAU", "COULOMB", "NONE"), CUTTYPE=p("GLUON_PROPS", "FIELDS", "NOTHING"), SMEARTYPE=p("APE", "HYP", "NOTHING", "WFLOW_LOG"), SMITERS=int(r.integers(0, 4)), DIRECTION=p("ALL", "SPATIAL"), ITERS=int(r.integers(2, 5)), SAVE=int(r.integers(1, 4)), MAX_T=2, U1_MEAS=p("U1_PLAQUETTE", "U1_TOPOLOGICAL", "U1_RECTANGLE"))
    for k in range(1, ND): s["ALPHA%d" % k] = "%.4f" % r.uniform(0.05, 0.6)
    if c["inp"] in ("RANDOM", "UNIT", "INSTANTON", "JLQCD"): s = prog.with_dims(s, c["dims"])
    else: s = prog.with_dims(s, [int(x) for x in r.integers(1, 30, ND)]) if r.random() < 0.5 else {k: v for k, v in s.items() if not k.startswith("DIM_")}
    return s

class World:
    """one configuration on disk and its links as the library reads them"""
    def __init__(self, c, g, r, wd):
        self.c, self.g, self.wd, self.r = c, g, wd, r; N, ND = g.NC, g.ND; dims = c["dims"]; self.lat = ref.Lattice(dims)
        self.S = S = g.shim("upd"); S.u_read.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_void_p]; S.u_read.restype = ctypes.c_void_p
        g.shim("rng").r_gtrans.argtypes = [ctypes.c_void_p]
        self.U = None; self.conf = "dir/conf"; os.makedirs(os.path.join(wd, "dir"), exist_ok=True); self.flow0 = int(r.integers(1, 99999)); i = c["inp"]
        self.tag = i if i in HEADS and i not in rio.HEADER and i not in ("BQCD", "LIME", "JLQCD") else prog.HEADERTAG[i]
        if i not in ("RANDOM", "UNIT", "INSTANTON"):
            kind = c.get("kind") or str(r.choice(["hot", "warm", "smooth"])); prec = "F" if r.random() < 0.15 and i not in ("HIREP", "JLQCD", "CERN") else "D"
            for _ in range(20):
                self.U = ref.field(r, dims, N, kind)
                if i != "NERSC_SMALL" or rio.short_conditioning(self.U) < (1e6 if prec == "D" else 1e2): break
            self.tol = (1e-12 if prec == "D" else 2e-6) * (1 if i != "NERSC_SMALL" else rio.short_conditioning(self.U))
            open(self.path, "wb").write(rio.encode(i, dims, self.U, prec, "little" if r.random() < 0.3 and (i.startswith("NERSC") or i == "MILC") else "big", flow=self.flow0))
        elif i == "UNIT": self.U = ref.field(r, dims, N, "unit"); self.tol = 0
    @property
    def path(self): return os.path.join(self.wd, self.conf)
    def read(self, s, threads):
        """-> lattice, links; the state is that of a program that has just read it"""
        g = self.g; i = self.c["inp"]; st = np.zeros(1, np.int32); known = i in ("RANDOM", "UNIT", "INSTANTON", "JLQCD")
        g.setup(self.c["dims"] if known else [7] * g.ND, threads, int(s["SEED"]), HEADS[self.tag]); g.B.v_flow(0 if s["MODE"] == "HEATBATH" and i in ("RANDOM", "UNIT") else int(s["CONFNO"]))
        g.smalpha([float(s["ALPHA%d" % k]) for k in range(1, g.ND)]); g.B.v_gfalpha(float(s["GF_TUNE"]))
        with Capture(g.B) as cap: q = self.S.u_read(self.path.encode(), HEADS[self.tag], P(st))
        if not q: raise RuntimeError("cannot read %s: %s" % (i, cap.text[-300:]))
        g.dims = list(self.c["dims"]); g.V = int(np.prod(g.dims))
        return q, g.get(q)
    def files(self):
        return sorted(os.path.relpath(os.path.join(a, f), self.wd) for a, _, fs in os.walk(self.wd) for f in fs if f not in ("in.txt",) and os.path.join(a, f) != self.path)
    def clear(self):
        for f in self.files(): os.unlink(os.path.join(self.wd, f))

def observables(R, key, w, txt, U, ctx):
    N, ND = w.g.NC, w.g.ND; L = w.lat
    num = r"([-+0-9.einfa]+)"
    def get(rx, what):
        m = re.search(rx, txt)
        if not m: R.bad(key + "/print", "%s: %s not printed" % (ctx, what)); return None
        return [float(x) for x in m.groups()]
    for tag, vals in (("PLAQS", ref.plaquettes(L, U)), ("LINKS", ref.link_traces(L, U))):
        for nm, v in zip(("", " spatial", " temporal"), vals):
            x = get(r"\[%s SU\(%d\)%s\] *:: %s" % (tag, N, nm, num), tag + nm)
            if x: R.near(key + "/" + tag.lower(), x[0], v, 1e-12, ctx + " printed " + tag + nm)
    for mu in range(ND):
        x = get(r"\[POLY SU\(%d\) DIR_%d\] \( %s , %s \) , MODULUS :: %s" % (N, mu, num, num, num), "POLY %d" % mu); z = ref.polyakov(L, U, mu)
        z = complex(np.mean(z)) / N if np.ndim(z) else complex(z) / N
        if x: R.near(key + "/poly", [x[0] + 1j * x[1], x[2]], [z, abs(z)], 2e-6, ctx + " printed Polyakov loop %d" % mu, scale=0)
    x = get(r"\[UNITARY\] BADLINKS :: (\d+) out of (\d+)", "unitarity")
    if x: R.near(key + "/unitary", x, [0, L.V * ND], 0, ctx + " printed unitarity")
    for nm, d in (("LANDAU", ND), ("COULOMB", ND - 1)):
        t = rgf.theta_site(L, U, d)
        for tag, v in (("[GFACC %s]" % nm, 4 * t.sum() / (N * L.V)), ("[GFACC MAX %s]" % nm, 2 * t.max())):
            x = get(re.escape(tag) + r" +LIN :: " + num, tag)
            if x: R.near(key + "/gfacc", x[0] / (abs(v) + 1e-25), v / (abs(v) + 1e-25), 1e-6 if v > 1e-12 else 1, ctx + " printed " + tag, scale=0)

def run(c, g):
    R = Report(); N, ND = g.NC, g.ND; dims = c["dims"]; r = rng_of(c["seed"]); lab = c["label"]; T = c["threads"]; K = lab
    wd = tempfile.mkdtemp(prefix="glup02"); old = os.getcwd(); os.chdir(wd)
    try:
        if lab in ("rewrite", "smear", "fix", "cut", "u1", "hb"): return work(R, c, g, r, wd)
        if lab == "memory": return memory(R, c, g, r, wd)
        if lab == "bad": return bad(R, c, g, r, wd)
        return cli(R, c, g, r, wd)
    finally:
        os.chdir(old); shutil.rmtree(wd, ignore_errors=True)

def landing(R, key, ctx, g, w, c, s, res, E, tol, flow):
    """the output holds E"""
    N, ND = g.NC, g.ND; f = os.path.join(w.wd, "out")
    if not os.path.isfile(f): R.bad(key + "/nothing", "%s: no output, status %s: %s" % (ctx, res.rc, res.text[-600:])); return None
    if w.files() != ["out"]: R.bad(key + "/files", "%s: leaves %s" % (ctx, w.files()))
    st = s["STORAGE"]
    if st == "NERSC_SMALL" and N > 3 or s["MODE"] == "SUNCxU1" and st in ("NERSC_SMALL", "NERSC_GAUGE"): st = "NERSC_NCxNC"
    D = rio.decode(st, open(f, "rb").read(), N, ND); R.ok()
    for p in D["problems"]: R.bad(key + "/format", "%s: output: %s" % (ctx, p))
    if list(D["dims"]) != list(c["dims"]): R.bad(key + "/dims", "%s: output has extents %s" % (ctx, D["dims"])); return None
    if D["flow"] is not None and int(D["flow"]) != flow: R.bad(key + "/number", "%s: output carries number %s instead of %d" % (ctx, D["flow"], flow))
    if E is not None:
        if st == "NERSC_SMALL": tol = max(tol, 1e-12) * min(rio.short_conditioning(E), 1e12)
        if st == "NERSC_SMALL" and tol > 1e-3: return D["U"]
        R.near(key + "/links", D["U"], E, tol, ctx + ": links in the output")
    return D["U"]

def work(R, c, g, r, wd):
    N, ND = g.NC, g.ND; dims = c["dims"]; lab = c["label"]; T = 1 if c.get("threads_") == 1 and r.random() < 0.8 else c["threads"]
    if lab in ("cut", "hb") : T = 1
    w = World(c, g, r, wd); s = options(r, c, N, ND)
    s.update(HEADER=w.tag, MODE=dict(rewrite="REWRITE", smear="SMEARING", fix="GAUGE_FIXING", cut="CUTTING", u1="SUNCxU1", hb="HEATBATH")[lab])
    if lab == "smear": s.update(SMEARTYPE=c["type"], DIRECTION="SPATIAL" if c["spatial"] else "ALL", SMITERS=str(c["iters"]))
    if lab == "smear" and s["STORAGE"] == "NERSC_SMALL" and c["inp"] == "UNIT": s["STORAGE"] = "NERSC_NCxNC"
    if lab == "smear" and "FLOW" in c["type"]: s.update(ALPHA1="%.3f" % r.uniform(0.01, 0.05))
    if lab == "fix": s.update(GFTYPE=c["type"], ACCURACY=str(c["acc"]), GF_TUNE="%.3f" % r.uniform(0.05, 0.09), MAX_ITERS=str(int(r.choice([50, 400, 1000]))))
    if lab == "cut": s.update(CUTTYPE=c["type"], MOM_CUT=str(r.choice(list(MOMCUT))), FIELD_DEFINITION="LINEAR" if N > 3 or r.random() < 0.6 else "LOGARITHMIC", MAXMOM=str(int(r.integers(2, 8))), MAX_T=str(int(r.integers(2, 4))), ANGLE=str(int(r.integers(10, 90))), CYL_WIDTH="%.2f" % r.uniform(0.5, 2),
                              SMEARTYPE=str(r.choice(["NOTHING", "APE", "STOUT"])))
    if lab == "u1": s.update(U1_ALPHA="%.4f" % r.uniform(0.001, 1), U1_CHARGE=str(r.choice(["1.0", "-0.333", "0.667"])))
    if lab == "hb": s.update(BETA="%.3f" % r.uniform(1, 7), ITERS=str(int(r.integers(3, 7))), SAVE=str(int(r.integers(1, 3))), MEASURE="1", OVER_ITERS=str(int(r.integers(0, 3))), THERM=str(int(r.integers(0, 3))))
    ctx = "%s dims %s threads %d %s" % (g.variant, dims, T, " ".join("%s=%s" % (k, s[k]) for k in ("MODE", "HEADER", "RANDOM_TRANSFORM", "STORAGE", "SEED") + dict(smear=("SMEARTYPE", "DIRECTION", "SMITERS"), fix=("GFTYPE", "ACCURACY", "GF_TUNE", "MAX_ITERS"), cut=("CUTTYPE", "MOM_CUT", "MAXMOM", "FIELD_DEFINITION")).get(lab, ())))
    sig = "%s/%s/%s/%s/%s/%s/%d" % (g.variant, lab, c.get("type"), c["inp"], c["out"], c.get("rt"), T)
    key = lab + ("/" + c["type"] if "type" in c else "")
    flow = w.flow0 if w.tag == "NERSC" else 0 if lab == "hb" and c["inp"] in ("RANDOM", "UNIT") else int(s["CONFNO"])
    if lab == "hb" and c["inp"] not in ("RANDOM", "UNIT"): return continued(R, c, g, r, w, s, ctx, sig)
    # the same by hand
    q, A = w.read(s, T)
    if w.U is not None: R.near(key + "/read", A, w.U, max(w.tol, 1e-12), ctx + ": links read")
    fn = "out" if lab != "cut" and lab != "hb" else None if r.random() < 0.7 else "out"
    if c.get("rt") and lab not in ("cut", "hb"): g.shim("rng").r_gtrans(q)
    B0 = g.get(q); exact = True; E = None; fails = False
    if lab == "smear":
        S = g.shim("smear"); ty = c["type"]; n = c["iters"]; S.z_smear.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_size_t]
        for f in ("z_flow", "z_adaptive"): getattr(S, f).argtypes = [ctypes.c_void_p, ctypes.c_size_t] + [ctypes.c_int] * (3 if f == "z_flow" else 2)
        with Capture(g.B):
            if ty == "NOTHING" or n == 0: st = 0
            elif ty.startswith("ADAPT"): st = S.z_adaptive(q, n, 1, 2 if ty.endswith("STOUT") else 3)
            elif ty.startswith("WFLOW"): st = S.z_flow(q, n, 1, 2 if ty.endswith("STOUT") else 3, 0)
            elif SM[ty] <= 3: st = S.z_smear(q, b"3D" if c["spatial"] else b"4D", n, SM[ty], 0)
            elif ND == 4: st = S.z_smear(q, b"HYP3D" if c["spatial"] else b"HYP4D", n, SM[ty] - 3, 0)
            else: st = S.z_smear(q, b"HYPND", n, SM[ty] - 3, ND - 1 if c["spatial"] else ND)
        fails = st != 0
    elif lab == "fix":
        G = rgf.shim(g); acc = 10.0 ** -c["acc"]; mi = int(s["MAX_ITERS"]); ty = c["type"]
        with Capture(g.B) as cap:
            st = 0
            if ty == "LANDAU": st = G.z_landau(q, acc, mi, w.path.encode())
            elif ty == "COULOMB": G.z_coulomb(q, acc, mi)
            elif ty == "COULOMB_RESIDUAL": G.z_coulomb(q, acc, mi); G.z_residual(q)
            elif ty == "AXIALT": st = G.z_axial(q, ND - 1)
            elif ty == "MAG": st = G.z_mag(q)
        fails = st in (-1, rgf.FAIL); exact = T == 1 and not re.search("estart", cap.text)
    elif lab == "u1":
        S = g.shim("u1"); S.x_cross.argtypes = [ctypes.c_void_p, ctypes.c_double, ctypes.c_double, ctypes.c_int]
        with Capture(g.B) as cap: fails = S.x_cross(q, float(s["U1_ALPHA"]), float(s["U1_CHARGE"]), ["U1_PLAQUETTE", "U1_RECTANGLE", "U1_TOPOLOGICAL"].index(s["U1_MEAS"])) != 0
        x_text = cap.text
    E = g.get(q); g.free(q)
    res = prog.run(g, wd, s, w.conf, fn, T); R.ok(sig)
    if res.crashed: R.bad(key + "/crash", "%s: status %s %s" % (ctx, res.rc, res.text[-1500:])); return R.out()
    if lab in ("rewrite", "smear", "fix", "u1"):
        if fails:
            R.ok()
            if not res.failed or w.files(): R.bad(key + "/failure", "%s: the operation fails, the program returns %s and leaves %s" % (ctx, res.rc, w.files()))
            R.obs["failing operations"] = 1; return R.out()
        if res.failed: R.bad(key + "/status", "%s: status %d: %s" % (ctx, res.rc, res.text[-800:])); return R.out()
        tol = 1e-12 if lab in ("rewrite", "u1") or lab == "smear" and T == 1 else 1e-9 if lab == "smear" else 1e-7
        W = landing(R, key, ctx, g, w, c, s, res, E if exact and not (lab == "u1" and N == 2 and s["STORAGE"] == "HIREP") else None, tol, flow)   # HiRep has no place for U(2) links
        if W is not None and lab == "fix":
            R.near(key + "/gauge invariant", ref.plaquettes(w.lat, W), ref.plaquettes(w.lat, B0), 1e-9 if c["out"] != "NERSC_SMALL" else 1e-3, ctx)
        if lab == "rewrite": observables(R, key, w, res.out, E, ctx)
        if lab == "u1":
            pick = lambda t: [l for l in t.split("\n") if l.startswith("[U(1)]") and re.search(r"\d", l) and "time" not in l.lower()]
            R.ok()
            if pick(res.out) != pick(x_text) and T == 1: R.bad("u1/print", "%s: prints %s instead of %s" % (ctx, pick(res.out), pick(x_text)))
        # nothing but what was asked for: the run without an output leaves nothing
        if r.random() < 0.3:
            w.clear(); res = prog.run(g, wd, s, w.conf, None, T); R.ok()
            if res.failed or w.files(): R.bad(key + "/no output", "%s: without -o status %s, files %s" % (ctx, res.rc, w.files()))
    elif lab == "cut":
        got = {f: open(f, "rb").read() for f in w.files()}; w.clear()
        if c["type"] == "SMEARED_GLUONS" or s["SMEARTYPE"] != "NOTHING": pass
        g.setup(dims, T, int(s["SEED"]), HEADS[w.tag]); g.B.v_flow(flow); g.smalpha([float(s["ALPHA%d" % k]) for k in range(1, ND)])
        want, text, _ = rcuts.run_mode(g, A, CUT[c["type"]], cut=MOMCUT[s["MOM_CUT"]], max_mom=int(s["MAXMOM"]), max_t=int(s["MAX_T"]), definition="LINEAR_DEF" if s["FIELD_DEFINITION"] == "LINEAR" else "LOG_DEF",
            angle=int(s["ANGLE"]), width=float(s["CYL_WIDTH"]), smdir="ALL_DIRECTIONS" if s["DIRECTION"] == "ALL" else "SPATIAL_LINKS_ONLY", smiters=int(s["SMITERS"]), smtype={"NOTHING": "SM_NOSMEARING", "APE": "SM_APE", "STOUT": "SM_STOUT"}[s["SMEARTYPE"]])
        R.ok()
        if res.failed != (rcuts.run_mode.status != 0): R.bad(key + "/status", "%s: status %d, that of the library is %d: %s" % (ctx, res.rc, rcuts.run_mode.status, res.text[-800:]))
        if res.failed: R.obs["failing cuts"] = 1
        if sorted(got) != sorted(want): R.bad(key + "/names", "%s: files %s instead of %s: %s" % (ctx, sorted(got), sorted(want), res.text[-300:]))
        else:
            for f in got:
                R.ok()
                if got[f] != want[f]: R.bad(key + "/bytes", "%s: file %s differs from what the library writes, from byte %d of %d" % (ctx, f, next((i for i, (a, b) in enumerate(zip(got[f], want[f])) if a != b), min(len(got[f]), len(want[f]))), len(want[f])))
            if got and str(flow) not in " ".join(got): R.bad(key + "/number", "%s: configuration number %d is not in the names %s" % (ctx, flow, sorted(got)))
    else:       # a new chain
        got = {f: open(f, "rb").read() for f in w.files()}; w.clear(); u_heatbath(g, w, s, c, T, 0)
        want = {f: open(f, "rb").read() for f in w.files()}; R.ok()
        compare_chain(R, "hb/new", ctx, g, c, s, got, want, res)
        n = len([i for i in range(1, int(s["ITERS"])) if i % int(s["SAVE"]) == 0])
        if len(got) != 2 * n: R.bad("hb/number", "%s: %s for %s iterations" % (ctx, sorted(got), s["ITERS"]))
    return R.out()

def u_heatbath(g, w, s, c, T, cont):
    S = g.shim("upd"); C = ctypes; S.u_heatbath.argtypes = [C.c_char_p, C.c_int, C.c_double] + [C.c_size_t] * 5 + [C.c_int, C.c_int, C.c_char_p]
    st = s["STORAGE"]
    if st == "NERSC_SMALL" and g.NC > 3: st = "NERSC_NCxNC"
    g.setup(c["dims"], T, int(s["SEED"]), HEADS[w.tag]); g.B.v_flow(0 if not cont else int(s["CONFNO"]))
    i = lambda k: int(s[k])
    with Capture(g.B) as cap: rc = S.u_heatbath(w.conf.encode(), HEADS[w.tag], float(s["BETA"]), i("ITERS"), i("MEASURE"), i("OVER_ITERS"), i("SAVE"), i("THERM") if not cont else 0, cont, FMT[st], s["CONFIG_INFO"].encode())
    return rc, cap.text

def strip(b): return re.sub(rb"(ARCHIVE|CREATION)_DATE = [^\n]*", b"", re.sub(rb"<date>[^<]*</date>", b"", b))
def compare_chain(R, key, ctx, g, c, s, got, want, res):
    if res.failed: R.bad(key + "/status", "%s: status %d: %s" % (ctx, res.rc, res.text[-600:]))
    if sorted(got) != sorted(want): R.bad(key + "/names", "%s: files %s instead of %s" % (ctx, sorted(got), sorted(want))); return
    for f in got:
        R.ok(); a, b = strip(got[f]), strip(want[f])
        if s["STORAGE"] == "MILC" and not f.endswith(".rand"): o = 4 + 4 * g.ND; a, b = a[:o] + a[o + 64:], b[:o] + b[o + 64:]
        if a != b: R.bad(key + "/bytes", "%s: file %s differs from what the library writes" % (ctx, f))

def continued(R, c, g, r, w, s, ctx, sig):
    """a chain is continued from a configuration with its generator state"""
    s1 = dict(s); c1 = dict(c, inp="UNIT"); s1.update(HEADER="UNIT", STORAGE={"NERSC_NCxNC": "NERSC_NCxNC", "ILDG": "ILDG"}[c["inp"]], SAVE="2", ITERS="3"); s1 = prog.with_dims(s1, c["dims"])
    s["STORAGE"] = s1["STORAGE"]
    res = prog.run(g, w.wd, s1, "chain/x" if os.makedirs(w.wd + "/chain") is None else 0, None, 1); R.ok()
    if res.failed or not os.path.exists(w.wd + "/chain/x.2"): R.bad("hb/start", "%s: status %s files %s %s" % (ctx, res.rc, w.files(), res.text[-400:])); return R.out()
    os.remove(w.path); w.conf = "chain/x.2"; keep = {f: open(os.path.join(w.wd, f), "rb").read() for f in w.files()}
    s["CONFNO"] = "2"; res = prog.run(g, w.wd, s, w.conf, None, 1); R.ok(sig)
    if res.crashed: R.bad("hb/crash", "%s: %s" % (ctx, res.text[-800:])); return R.out()
    look = lambda: {f: open(os.path.join(w.wd, f), "rb").read() for f in w.files() if f not in keep}
    got = look()
    for f in got: os.remove(os.path.join(w.wd, f))
    u_heatbath(g, w, s, c, 1, 1); want = look()
    compare_chain(R, "hb/continued", ctx, g, c, s, got, want, res)
    if not got and int(s["ITERS"]) > int(s["SAVE"]) + 2: R.bad("hb/continued/nothing", "%s: nothing written: %s" % (ctx, res.text[-600:]))
    # without its generator state there is nothing to continue from
    for f in look(): os.remove(os.path.join(w.wd, f))
    for f in w.files():
        if f.endswith(".rand"): os.remove(os.path.join(w.wd, f))
    res = prog.run(g, w.wd, s, w.conf, None, 1); R.ok()
    if not res.failed and "NEW rng sequence" not in res.text: R.bad("hb/no state", "%s: continuing without a generator state gives %s and %s, and says nothing" % (ctx, res.rc, sorted(look())))
    return R.out()

def memory(R, c, g, r, wd):
    """the same answer or a failure, whatever the memory"""
    N, ND = g.NC, g.ND; c = dict(c); mode = c["mode"]
    w = World(c, g, r, wd); s = options(r, c, N, ND); s.update(MODE=mode, HEADER=w.tag)
    types = dict(SMEARING=["APE", "STOUT", "HYP", "HEX", "HYL", "WFLOW_STOUT", "WFLOW_LOG", "ADAPTWFLOW_STOUT"], GAUGE_FIXING=["LANDAU", "COULOMB", "COULOMB_RESIDUAL", "AXIALT", "MAG"], CUTTING=["FIELDS", "GLUON_PROPS", "TOPOLOGICAL_CORRELATOR", "CONFIGSPACE_GLUONS", "STATIC_POTENTIAL"]).get(mode, [None])
    for ty in types:
        if ty and ty.endswith(("LOG", "HYL")) and N > 4: continue
        if mode == "SMEARING": s.update(SMEARTYPE=ty, SMITERS="2", DIRECTION="ALL" if r.random() < 0.7 else "SPATIAL", ALPHA1="0.05" if "FLOW" in ty else "0.4")
        if mode == "GAUGE_FIXING": s.update(GFTYPE=ty, ACCURACY="9", MAX_ITERS="400", GF_TUNE="0.07")
        if mode == "CUTTING": s.update(CUTTYPE=ty, MAXMOM="4", MAX_T="2", SMEARTYPE="NOTHING")
        if mode == "HEATBATH": s.update(ITERS="3", SAVE="2", THERM="0", MEASURE="1")
        V = int(np.prod(c["dims"])); B = V * (N * N * ND * 16 + 8 * ND); full = None; key = "memory/%s/%s" % (mode, ty); outs = writable(N, ND)
        if mode in ("REWRITE",): s["STORAGE"] = str(r.choice([o for o in outs if o not in ("CERN", "NERSC_SMALL")]))
        ctx = "%s dims %s %s %s %s" % (g.variant, c["dims"], mode, ty, s["STORAGE"]); states = set()
        for f in [None] + sorted([float(x) for x in r.uniform(0.1, 14, 4)] + [0.5, 1.02, 1.05, 1.3, 2.1, 3.5, 5, 8], reverse=True):
            w.clear(); res = prog.run(g, wd, s, w.conf, "out" if mode not in ("CUTTING", "HEATBATH") else None, 1, None if f is None else f * B); R.ok("%s/%s/%s/%s/%s" % (g.variant, mode, ty, s["STORAGE"], f and round(f, 1)))
            cx = "%s with %.2f times the memory of a field" % (ctx, f) if f else ctx
            if res.crashed: R.bad(key + "/crash", "%s: status %s %s" % (cx, res.rc, res.text[-1000:])); continue
            got = {x: open(os.path.join(wd, x), "rb").read() for x in w.files()}
            if f is None:
                full = got
                if not got and g.variant in ("nc4", "nc3nofft") and (mode == "SUNCxU1" or mode == "CUTTING"): break
                if res.failed:
                    if mode == "GAUGE_FIXING": break
                    R.bad(key + "/status", "%s: %s" % (cx, res.text[-500:])); break
                if not got: R.bad(key + "/nothing", cx); break
                st = s["STORAGE"] if not (s["STORAGE"] == "NERSC_SMALL" and N > 3 or mode == "SUNCxU1" and s["STORAGE"] in ("NERSC_SMALL", "NERSC_GAUGE")) else "NERSC_NCxNC"
                continue
            if res.failed:
                states.add("refused")
                if got: R.bad(key + "/left behind", "%s: fails with %d but leaves %s" % (cx, res.rc, sorted(got)))
                continue
            states.add("done")
            if sorted(got) != sorted(full): R.bad(key + "/files", "%s: status 0, files %s instead of %s: %s" % (cx, sorted(got), sorted(full), res.text[-500:])); continue
            for x in got:
                if strip(got[x]) == strip(full[x]) or x.endswith(".rand"): continue
                if mode in ("CUTTING", "HEATBATH"):
                    R.bad(key + "/differs", "%s: %s differs from the one with plenty" % (cx, x)) if mode == "CUTTING" or len(got[x]) != len(full[x]) else None; continue
                a, b = (rio.decode(st, z, N, ND)["U"] for z in (got[x], full[x]))
                # another routine may do the same smearing in another order of operations
                R.near(key + "/differs", a, b, 1e-9 if st != "NERSC_SMALL" else 1e-4, cx)
        for x in states: R.obs["memory " + x] = 1
    return R.out()

def bad(R, c, g, r, wd):
    """configurations that cannot be read, outputs that cannot be written, modes that cannot work"""
    N, ND = g.NC, g.ND
    if c["inp"] in ("RANDOM", "UNIT", "INSTANTON"): c = dict(c, inp="NERSC_NCxNC")
    w = World(c, g, r, wd); good = open(w.path, "rb").read(); MODES = ["REWRITE", "GAUGE_FIXING", "CUTTING", "SMEARING", "SUNCxU1", "HEATBATH"]
    def attempt(what, mode, data=None, conf=None, head=None, out="out", must=True, **o):
        w.clear(); s = options(r, c, N, ND); s.update(MODE=mode, HEADER=head or w.tag, CUTTYPE="GLUON_PROPS", SMEARTYPE="STOUT", SMITERS="1", GFTYPE="AXIALT"); s.update(o)
        if data is not None: open(w.path, "wb").write(data)
        res = prog.run(g, wd, s, conf or w.conf, out, c["threads"]); R.ok("%s/bad/%s/%s/%s" % (g.variant, what, mode, c["inp"]))
        ctx = "%s %s %s dims %s %s" % (g.variant, c["inp"], what, c["dims"], mode)
        if res.crashed: R.bad("bad/crash/%s/%s" % (what, mode), "%s: status %s: %s" % (ctx, res.rc, res.text[-1200:]))
        elif must and not res.failed: R.bad("bad/status/%s/%s" % (what, mode), "%s: status 0: %s" % (ctx, res.text[-600:]))
        fs = [f for f in w.files() if f not in ("unrelated",)]
        if must and fs: R.bad("bad/output/%s/%s" % (what, mode), "%s: leaves %s" % (ctx, fs))
        if data is not None: open(w.path, "wb").write(good)
    for m in MODES:
        attempt("missing", m, conf="dir/none"); attempt("directory", m, conf="dir"); attempt("empty", m, b"")
        attempt("cut", m, good[:int(r.integers(1, len(good)))] if c["inp"] != "NONE" else good) if True else None
        attempt("header only", m, good[:len(good) // 50 + 8]); attempt("noise", m, r.bytes(int(r.integers(1, 4000))))
        if m != "CUTTING" and m != "HEATBATH" and not (m == "SUNCxU1" and g.variant in ("nc4", "nc3nofft")):
            attempt("output in a missing directory", m, out="nodir/out"); attempt("output is a directory", m, out="dir")
    for h in HEADS:
        if h != w.tag and h not in ("RANDOM", "UNIT", "INSTANTON") and not (h == "LIME" and c["inp"] in ("ILDG", "BQCD", "LIME", "SCIDAC")) and h != "JLQCD" and not ({h, w.tag} <= {"ILDG_SCIDAC", "ILDG_BQCD", "SCIDAC", "LIME"}):
            m = MODES[int(r.integers(len(MODES)))]; attempt("taken for " + h, m, head=h)
    # a mode that cannot do what it is asked
    attempt("unknown storage", "REWRITE", STORAGE="XYZ"); attempt("unknown header", "REWRITE", head="XYZ")
    return R.out()

def cli(R, c, g, r, wd):
    """command lines"""
    N, ND = g.NC, g.ND; w = World(c, g, r, wd); s = options(r, c, N, ND); s.update(HEADER="NERSC", MODE="REWRITE")
    open("in.txt", "w").write(prog.text(s))
    def go(argv, what):
        w.clear(); res = prog.run(g, wd, None, argv=argv); R.ok("%s/cli/%s" % (g.variant, what)); ctx = "%s %s" % (g.variant, " ".join(argv))
        if res.crashed: R.bad("cli/crash", "%s: status %s: %s" % (ctx, res.rc, res.text[-1000:]))
        return res, w.files(), ctx
    for argv in ([], ["-i", "in.txt"], ["-i", "in.txt", "-c"], ["-i", "in.txt", "-c", w.conf, "-o"], ["-i"], ["--help"], ["--autoin=x"]):
        res, fs, ctx = go(argv, "few%d" % len(argv))
        if fs: R.bad("cli/output", "%s leaves %s" % (ctx, fs))
        if not res.text.strip(): R.bad("cli/silent", ctx)
    for h in ("MODE", "HEADER", "DIM_0", "CONFNO", "RANDOM_TRANSFORM", "SEED", "GFTYPE", "GF_TUNE", "ACCURACY", "MAX_ITERS", "CUTTYPE", "FIELD_DEFINITION", "MOM_CUT", "MAX_T", "MAXMOM", "CYL_WIDTH", "ANGLE", "OUTPUT", "SMEARTYPE", "DIRECTION", "SMITERS", "ALPHA1", "U1_MEAS", "U1_ALPHA", "U1_CHARGE", "CONFIG_INFO", "STORAGE", "BETA", "ITERS", "MEASURE", "OVER_ITERS", "SAVE", "THERM"):
        res, fs, ctx = go(["--help=" + h], "help")
        if h not in res.text and h.rstrip("0123456789_") not in res.text: R.bad("cli/help", "%s does not mention it: %s" % (ctx, res.text[:300]))
    # the input files it proposes have to be usable
    for a in ("LANDAU", "COULOMB", "STATIC_POTENTIAL", "TOPOLOGICAL_SUSCEPTIBILITY", "SUNCxU1", "HEATBATH", "WFLOW", "SMEARED_GLUONS", "REWRITE"):
        res, fs, ctx = go(["--autoin=" + a], "autoin")
        if "MODE" not in res.text or res.out.count(" = ") < 20: R.obs["no proposal for " + a] = 1; continue
        t = res.out; j = t.index("MODE"); m = dict(re.findall(r"^\s*(\w+) += +(\S+)", t[j:], re.M))
        miss = [k for k in ("MODE", "HEADER", "SEED", "GFTYPE", "SMEARTYPE", "STORAGE") if k not in m]
        if miss: R.bad("cli/autoin", "%s: proposal without %s" % (ctx, miss))
    res, fs, ctx = go(["-i", "in.txt", "-c", w.conf, "-o", "out"], "full")
    if res.failed or fs != ["out"]: R.bad("cli/full", "%s: status %s leaves %s" % (ctx, res.rc, fs))
    res, fs, ctx = go(["-i", "in.txt", "-c", w.conf], "noout")
    if res.failed or fs: R.bad("cli/noout", "%s: status %s leaves %s" % (ctx, res.rc, fs))
    res, fs, ctx = go(["-i", "none.txt", "-c", w.conf, "-o", "out"], "noinput")
    if not res.failed or fs: R.bad("cli/noinput", "%s: status %s leaves %s" % (ctx, res.rc, fs))
    return R.out()
