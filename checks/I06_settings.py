"""The input file."""
import os, tempfile, ctypes
import numpy as np
from common import *
import prog
from glu import Capture
PROP = "I06"; LEVEL = "exploration"
RULE = ("get_input_data on generated input files (every documented value of every option, values of any size, lines in any order, any spacing and line ends, other lines in between, repeated parsing in one process) compared with a model of the documented format; "
        "files with one setting missing or nonsensical have to be refused, by the library and by the program, which must then leave no output; "
        "distinct by variant, kind, setting and value")
ASSUMPTIONS = ["a setting is 'TAG = VALUE' separated by white space, the first of repeated tags counts, names and values have fewer than 64 characters",
               "unrecognised names of modes, cuts, gauge fixings and smearings select the announced defaults (rewriting, no cuts, spherical cut, no fixing, no smearing)"]
MIN_SIGS = 400
VAR = ["nc3", "nc2", "nc4", "nc5nd3", "nc3_san", "nc5nd3_san"]
BUILDS = VAR
OPT = dict(MODE=["REWRITE", "GAUGE_FIXING", "CUTTING", "SMEARING", "SUNCxU1", "HEATBATH"],
           HEADER=["NERSC", "HIREP", "MILC", "SCIDAC", "ILDG_SCIDAC", "ILDG_BQCD", "JLQCD", "LIME", "CERN", "RANDOM", "UNIT", "INSTANTON"],
           RANDOM_TRANSFORM=["NO", "YES"], GFTYPE=["NONE", "AXIALT", "COULOMB", "COULOMB_RESIDUAL", "LANDAU", "MAG"],
           CUTTYPE=["NOTHING", "EXCEPTIONAL", "NON_EXCEPTIONAL", "FIELDS", "SMEARED_GLUONS", "INSTANTANEOUS_GLUONS", "CONFIGSPACE_GLUONS", "GLUON_PROPS", "STATIC_POTENTIAL", "TOPOLOGICAL_CORRELATOR", "TOPOLOGICAL_SUSCEPTIBILITY", "TOPOLOGICAL_MOMENTS"],
           FIELD_DEFINITION=["LINEAR", "LOGARITHMIC"], MOM_CUT=["HYPERCUBIC_CUT", "SPHERICAL_CUT", "CYLINDER_CUT", "CONICAL_CUT"],
           SMEARTYPE=["NOTHING", "APE", "STOUT", "LOG", "HYP", "HEX", "HYL", "WFLOW_LOG", "WFLOW_STOUT", "ADAPTWFLOW_LOG", "ADAPTWFLOW_STOUT"],
           DIRECTION=["SPATIAL", "ALL"], U1_MEAS=["U1_PLAQUETTE", "U1_RECTANGLE", "U1_TOPOLOGICAL"],
           STORAGE=["NERSC_SMALL", "NERSC_GAUGE", "NERSC_NCxNC", "HIREP", "MILC", "SCIDAC", "ILDG", "CERN"])
INT = ["CONFNO", "SEED", "MAX_ITERS", "MAX_T", "MAXMOM", "ANGLE", "SMITERS", "ITERS", "MEASURE", "OVER_ITERS", "SAVE", "THERM"]
DBL = ["GF_TUNE", "ACCURACY", "CYL_WIDTH", "U1_ALPHA", "U1_CHARGE", "BETA"]
STR = ["OUTPUT", "CONFIG_INFO"]
CUTTAGS = {"MOM_CUT", "FIELD_DEFINITION", "MAX_T", "MAXMOM", "ANGLE", "CYL_WIDTH", "OUTPUT"}
GENERATED = ("RANDOM", "UNIT", "INSTANTON", "JLQCD")
BADINT = ["abc", "-1", "3x", "1e3", "4.5", "99999999999999999999", "=", "0x10", "--3", "+-2", "1,000", "7;", "nan", "-", "+"]
BADDBL = ["abc", "1.0x", "nan", "inf", "-inf", "1e999", "1.0.0", "--1", "=", "1,5", "e5", "."]

def tags(ND):
    return list(OPT) + INT + DBL + STR + ["DIM_%d" % k for k in range(ND)] + ["ALPHA%d" % k for k in range(1, ND)]

def make(r, ND, **over):
    s = {k: str(r.choice(v)) for k, v in OPT.items()}
    for k in INT: s[k] = str(int(r.choice([0, 1, 2, 7, 100, 65536, 2**31, 2**32 - 1])) if r.random() < 0.4 else int(r.integers(1000)))
    for k in ["DIM_%d" % k for k in range(ND)]: s[k] = str(int(r.integers(1, 300)))
    for k in DBL + ["ALPHA%d" % k for k in range(1, ND)]:
        x = float(r.normal() * 10.0 ** r.integers(-6, 5)); s[k] = r.choice(["%.17g" % x, "%.6f" % x, "%.3e" % x, "%d" % x, "%+.4f" % x])
    s["ACCURACY"] = str(r.choice(["%d" % r.integers(0, 30), "%.3f" % (20 * r.random())]))
    for k in STR: s[k] = "".join(chr(int(c)) for c in r.choice([x for x in range(33, 127)], int(r.choice([1, 5, 20, 62, 63]))))
    for k in STR:
        if s[k].startswith("="): s[k] = "a" + s[k][1:]
    s.update(over); return s

def layout(r, items, style):
    """the text of an input file"""
    t = ""
    for k, v in items:
        ws = lambda lo: "".join(r.choice([" ", "\t"], int(r.integers(lo, 4))))
        if style == "plain": t += "%s = %s\n" % (k, v)
        elif style == "indent": t += ws(0) + k + ws(1) + "=" + ws(0) + v + ws(0) + "\n" * int(r.integers(1, 3))
        elif style == "crlf": t += "%s = %s\r\n" % (k, v)
        else: t += k + ws(1) + "=" + ws(1) + v + " "
    return t[:-1] if style != "indent" and r.random() < 0.5 else t

def expect(s, N, ND):
    """the settings in the order of the shim"""
    i = lambda k: OPT[k].index(s[k])
    gen = s["HEADER"] in GENERATED; new = s["HEADER"] in ("RANDOM", "UNIT")
    st = s["STORAGE"]
    if st == "NERSC_SMALL" and N > 3: st = "NERSC_NCxNC"
    if s["MODE"] == "SUNCxU1" and st in ("NERSC_SMALL", "NERSC_GAUGE"): st = "NERSC_NCxNC"
    v = [("MODE", i("MODE")), ("HEADER", i("HEADER")), ("HEADER", i("HEADER")), ("CONFNO", 0 if new and s["MODE"] == "HEATBATH" else int(s["CONFNO"])), ("RANDOM_TRANSFORM", s["RANDOM_TRANSFORM"] == "YES"), ("SEED", int(s["SEED"])),
         ("GFTYPE", i("GFTYPE")), ("GF_TUNE", float(s["GF_TUNE"])), ("ACCURACY", 10.0 ** -float(s["ACCURACY"])), ("MAX_ITERS", int(s["MAX_ITERS"])), ("CUTTYPE", i("CUTTYPE"))]
    nc = s["CUTTYPE"] == "NOTHING"
    v += [("FIELD_DEFINITION", None if nc else i("FIELD_DEFINITION")), ("MOM_CUT", None if nc else i("MOM_CUT"))]
    v += [(k, None if nc else int(s[k])) for k in ("MAX_T", "MAXMOM")] + [("CYL_WIDTH", None if nc else float(s["CYL_WIDTH"])), ("ANGLE", None if nc else int(s["ANGLE"]))]
    v += [("SMEARTYPE", i("SMEARTYPE")), ("DIRECTION", i("DIRECTION")), ("SMITERS", int(s["SMITERS"])), ("U1_MEAS", i("U1_MEAS")), ("U1_ALPHA", float(s["U1_ALPHA"])), ("U1_CHARGE", float(s["U1_CHARGE"])), ("STORAGE", OPT["STORAGE"].index(st)),
          ("BETA", float(s["BETA"])), ("ITERS", int(s["ITERS"])), ("MEASURE", int(s["MEASURE"])), ("OVER_ITERS", int(s["OVER_ITERS"])), ("SAVE", int(s["SAVE"])), ("THERM", int(s["THERM"]) if new else 0), ("continuation", not new)]
    v += [("ALPHA%d" % k, float(s["ALPHA%d" % k])) for k in range(1, ND)]
    v += [("DIM_%d" % k, int(s["DIM_%d" % k]) if gen else None) for k in range(ND)]
    return v

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []; rep = 1 if tier == "quick" else 12
    for k in range(rep):
        for v in VAR:
            for l in ("values", "missing", "nonsense", "program"):
                for j in range({"values": 3, "program": 2}.get(l, 1)):
                    out.append(dict(variant=v, label=l, seed=int(r.integers(1 << 31)), n=12 if l == "program" else 60))
    return out

def run(c, g):
    R = Report(); r = rng_of(c["seed"]); N, ND = g.NC, g.ND; lab = c["label"]
    S = g.shim("inp"); S.n_read.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p]
    def read(wd, t, name="in.txt"):
        p = os.path.join(wd, name); open(p, "wb").write(t if isinstance(t, bytes) else t.encode())
        v = np.zeros(200); w = ctypes.create_string_buffer(300); i = ctypes.create_string_buffer(200)
        with Capture(g.B) as cap: n = S.n_read(p.encode(), v.ctypes.data, w, i)
        return (None if n < 0 else list(v[:n])), w.value.decode("latin1"), i.value.decode("latin1"), cap.text
    def compare(s, got, key, ctx):
        v, w, i, txt = got; want = expect(s, N, ND); R.ok(n=len(want))
        if v is None: R.bad(key + "/refused", "%s: %s is refused: %s" % (ctx, s, txt[-400:])); return False
        if len(v) != len(want): R.bad(key + "/number", "%d settings instead of %d" % (len(v), len(want))); return False
        ok = True
        for (k, x), y in zip(want, v):
            if x is None: continue
            if not (abs(float(x) - y) <= (1e-14 * abs(float(x)) if k in DBL or k.startswith("ALPHA") else 0)): ok = False; R.bad("%s/%s" % (key, k), "%s: %s = %s gave %r instead of %r" % (ctx, k, s.get(k), y, x))
        if s["CUTTYPE"] != "NOTHING" and w != s["OUTPUT"]: ok = False; R.bad(key + "/OUTPUT", "%s: OUTPUT = %s gave %r" % (ctx, s["OUTPUT"], w))
        if i != s["CONFIG_INFO"]: ok = False; R.bad(key + "/CONFIG_INFO", "%s: CONFIG_INFO = %s gave %r" % (ctx, s["CONFIG_INFO"], i))
        return ok
    with tempfile.TemporaryDirectory(prefix="glui06") as wd:
        if lab == "values":
            last = None
            for k in range(c["n"]):
                s = make(r, ND); items = list(s.items())
                for o in OPT:         # every documented value in turn
                    s[o] = OPT[o][(k + c["seed"]) % len(OPT[o])] if r.random() < 0.6 else s[o]
                items = list(s.items()); items = [items[int(a)] for a in r.permutation(len(items))] if r.random() < 0.8 else items
                style = str(r.choice(["plain", "indent", "crlf", "line"])); nx = 0; dup = 0
                if r.random() < 0.4:
                    nx = int(r.integers(1, 120))
                    for j in range(nx): items.insert(int(r.integers(len(items) + 1)), ("XTRA_%d" % j if r.random() < 0.5 else str(r.choice(["#", "//", "DIM_", "MODES", "ALPHA", "ALPHA0", "ALPHA11", "mode", "SEEDS", "XSEED", "DIM_9"])), str(r.choice(["1", "x", "GAUGE_FIXING", "-1"]))))
                if r.random() < 0.4:
                    for j in range(int(r.integers(1, 5))):
                        t = items[int(r.integers(len(items)))][0]
                        if t in s: items.append((t, make(r, ND)[t])); dup += 1
                txt = layout(r, items, style)
                ok = compare(s, read(wd, txt), "values", "%s %s, %d other and %d repeated lines" % (g.variant, style, nx, dup))
                for o in OPT: R.ok("%s/%s=%s" % (g.variant, o, s[o]), 0)
                R.ok("%s/layout/%s/%d/%d" % (g.variant, style, nx > 0, dup > 0), 0)
        elif lab == "missing":
            for t in tags(ND) + tags(ND):
                s = make(r, ND, CUTTYPE="FIELDS") if t != "CUTTYPE" else make(r, ND)
                if t.startswith("DIM_"): s["HEADER"] = str(r.choice(GENERATED))
                items = [kv for kv in s.items() if kv[0] != t]; items = [items[int(a)] for a in r.permutation(len(items))]
                how = str(r.choice(["absent", "prefix", "suffix", "lower"]))
                if how != "absent": items.insert(int(r.integers(len(items) + 1)), ({"prefix": "X" + t, "suffix": t + "X", "lower": t.lower()}[how], s[t]))
                v, w, i, txt = read(wd, layout(r, items, "plain")); R.ok("%s/missing/%s" % (g.variant, t))
                if v is not None: R.bad("missing/" + t, "%s: a file without %s (%s) is accepted" % (g.variant, t, how))
            # and after all those refusals a complete file is still read
            s = make(r, ND); compare(s, read(wd, layout(r, list(s.items()), "plain")), "after", g.variant)
        elif lab == "nonsense":
            todo = [(t, b) for t in INT + ["DIM_%d" % k for k in range(ND)] for b in BADINT] + [(t, b) for t in DBL + ["ALPHA%d" % k for k in range(1, ND)] for b in BADDBL]
            todo += [("SEED", "4294967296"), ("SEED", "18446744073709551616"), ("HEADER", "NERSCX"), ("HEADER", "nersc"), ("HEADER", "NERS"), ("STORAGE", "NERSC"), ("STORAGE", "NERSC_"), ("STORAGE", "ALL"), ("STORAGE", "ILDG_SCIDAC")]
            todo += [(t, "7" * k) for t in ("CONFIG_INFO", "OUTPUT", "MODE") for k in (64, 65, 100, 1000)]
            todo = [todo[int(a)] for a in r.permutation(len(todo))[:4 * c["n"]]]
            for t, b in todo:
                s = make(r, ND, CUTTYPE="FIELDS")
                if t.startswith("DIM_"): s["HEADER"] = str(r.choice(GENERATED))
                s[t] = b; items = list(s.items()); items = [items[int(a)] for a in r.permutation(len(items))]
                v, w, i, txt = read(wd, layout(r, items, "plain")); R.ok("%s/nonsense/%s=%s" % (g.variant, t, b[:20]))
                if v is not None: R.bad("nonsense/" + t, "%s: %s = %s is accepted" % (g.variant, t, b[:80]))
            # names that do not exist select the announced defaults
            for t, d in (("MODE", "REWRITE"), ("GFTYPE", "NONE"), ("CUTTYPE", "NOTHING"), ("SMEARTYPE", "NOTHING"), ("MOM_CUT", "SPHERICAL_CUT"), ("DIRECTION", "ALL"), ("FIELD_DEFINITION", "LINEAR"), ("U1_MEAS", "U1_PLAQUETTE"), ("RANDOM_TRANSFORM", "NO")):
                for bad in ("Z" * int(r.integers(1, 63)), d + "X", OPT[t][-1].lower(), OPT[t][-1] + "_", OPT[t][-1][:-1]):
                    s = make(r, ND, CUTTYPE="FIELDS")
                    if bad in OPT[t] or bad in ("LOG",): continue
                    s[t] = bad; q = read(wd, layout(r, list(s.items()), "plain")); s[t] = d
                    compare(s, q, "default/" + t, "%s %s = %s" % (g.variant, t, bad)); R.ok("%s/default/%s" % (g.variant, t))
            for what in ("", "\n", " = ", "=", "MODE", "MODE =", "\0\0", "MODE = \0", "= = = =", "\xff\xfe"):
                v, w, i, txt = read(wd, what.encode("latin1")); R.ok("%s/nonsense/%r" % (g.variant, what))
                if v is not None: R.bad("nonsense/file", "%s: the input file %r is accepted" % (g.variant, what))
            with Capture(g.B):
                for p in (os.path.join(wd, "nowhere"), wd, ""):
                    n = S.n_read(p.encode(), np.zeros(200).ctypes.data, ctypes.create_string_buffer(300), ctypes.create_string_buffer(200)); R.ok()
                    if n >= 0: R.bad("nonsense/path", "%s: the input file %r is accepted" % (g.variant, p))
        else:
            ok = prog.with_dims(prog.settings(ND, HEADER="UNIT", SMEARTYPE="STOUT"), [2] * ND)
            for k in range(c["n"]):
                s = dict(ok, MODE=str(r.choice(OPT["MODE"])), CUTTYPE=str(r.choice(OPT["CUTTYPE"][1:])), STORAGE=str(r.choice(OPT["STORAGE"][:7])), HEADER=str(r.choice(["UNIT", "RANDOM"])), U1_ALPHA="0.1")
                how = ["missing", "nonsense", "file", "extent", "fine"][k % 5]; want = False; t = ""
                if how == "missing": t = str(r.choice([x for x in tags(ND)])); s.pop(t)
                elif how == "nonsense": t = str(r.choice(INT + DBL)); s[t] = str(r.choice(BADINT if t in INT else BADDBL))
                elif how == "file": t = "file"
                elif how == "extent": t = "DIM_%d" % r.integers(ND); s[t] = str(r.choice(["0", "-4", "4294967296", "2147483648", "1000000000000", "9223372036854775807", "4294967298", "3000000000"]))
                else: s["MODE"] = "REWRITE"; want = True
                items = list(s.items()); items = [items[int(a)] for a in r.permutation(len(items))]
                with tempfile.TemporaryDirectory(prefix="glui06") as w2:
                    q = prog.run(g, w2, layout(r, items, "plain") if how != "file" else None, "conf", "out"); left = sorted(set(os.listdir(w2)) - {"in.txt"})
                ctx = "%s %s %s=%s mode %s" % (g.variant, how, t, s.get(t), s.get("MODE")); R.ok("%s/program/%s/%s" % (g.variant, how, t))
                if q.crashed: R.bad("program/crash/" + how, "%s: ended with %s: %s" % (ctx, q.rc, q.text[-600:]))
                elif want and (q.rc != 0 or left != ["out"]): R.bad("program/fine", "%s: ended with %s and left %s: %s" % (ctx, q.rc, left, q.text[-600:]))
                elif not want and q.rc == 0: R.bad("program/accepted/" + how, "%s: exit status 0: %s" % (ctx, q.text[-600:]))
                elif not want and left: R.bad("program/left/" + how, "%s: left %s" % (ctx, left))
    return R.out()
