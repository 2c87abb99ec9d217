#!/usr/bin/env python3
"""tools/automutate.py SEED COUNT > FILE: COUNT random one-line edits of /repo's sources in the format tools/mutants.py runs,
each with the checks whose properties are anchored in the edited file."""
import sys, os, re, json, random, subprocess
r = random.Random(int(sys.argv[1])); n = int(sys.argv[2]); only = sys.argv[3] if len(sys.argv) > 3 else ""
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
anch = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    for f in p["anchors"]["files"]: anch.setdefault(f, []).append(p["id"])
DIR = {"Gfix": ["F02", "F01"], "Cuts": ["C01", "C02", "C03"], "Smear": ["S01", "S03", "S02"], "Field": ["C03", "O02", "O03"], "Utils": ["C01", "I06", "R02"], "IO": ["I02", "I06", "I05"],
       "Matrix_Ops": ["M01", "M02"], "Geometry": ["G01", "G02", "R01"], "Measurements": ["O01"], "U1": ["X01"], "Update": ["U01", "U02", "U03"], "Wrappers": ["O03", "S01", "I04"], "RNG": ["R01", "R02"]}
cost = {}
for p in sorted({x for v in anch.values() for x in v}):
    try: cost[p] = json.load(open(V + "/evidence/%s.json" % p)).get("wall_s", 60)
    except Exception: cost[p] = 60
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r"\[ ?0 ?\]", "[1]"), (r"\[ ?1 ?\]", "[0]"), (r"\[ ?2 ?\]", "[1]"), (r"\bmu\b", "nu"), (r"\bnu\b", "mu"), (r"\bi\b", "(i+1)"),
       (r"GLU_TRUE", "GLU_FALSE"), (r"GLU_FALSE", "GLU_TRUE"), (r"conj\(", "("), (r"\b2\.0\b", "2.1"), (r"\b0\.5\b", "0.6"), (r"\b1\b", "2"), (r"\b3\b", "4"), (r"\bND\b", "(ND-1)"),
       (r"\bNC\b", "(NC-1)"), (r"\+=", "-="), (r"-=", "+="), (r"= -", "= "), (r"neighbor", "back"), (r"\bback\b", "neighbor"), (r"creal", "cimag"), (r"LVOLUME", "LCU"), (r"TWOPI", "MPI"),
       (r"%", "/"), (r"\+\+", "+=2"), (r"Latt.dims\[ ?ND-1 ?\]", "Latt.dims[ 0 ]"), ("DEL", "")]
import glob
def compiled(f):
    """lines of a source file that some of the builds compile"""
    out = set()
    for v in ("nc3", "nc2", "nc4", "nc5nd3", "nc3luxury", "nc3nosse", "nc3nofft"):
        d = (glob.glob(V + "/.build/%s-*" % v) or [None])[0]
        if not d: continue
        t = subprocess.run(["gcc", "-E", "-fopenmp", "-msse2", "-I" + d, "-I/repo/src/Headers", "/repo/" + f], capture_output=True, text=True, errors="replace").stdout
        cur, n = "", 0
        for l in t.split("\n"):
            m = re.match(r'# (\d+) "([^"]*)"', l)
            if m: n, cur = int(m.group(1)), m.group(2); continue
            if cur.endswith(f) and l.strip(): out.add(n)
            n += 1
    return out
LINES = {}
files = [l for l in subprocess.run("cd /repo && ls src/*/*.c", shell=True, capture_output=True, text=True).stdout.split() if only in l]
w = [len(open("/repo/" + f, encoding="latin-1").read()) ** 0.5 for f in files]
out = []; seen = set()
while len(out) < n:
    f = r.choices(files, w)[0]; s = open("/repo/" + f, encoding="latin-1").read(); L = s.split("\n"); k = r.randrange(len(L)); t = L[k]
    if not t.strip() or re.match(r"\s*(#|//|\*|/\*|extern|static|struct|inline|printf|fprintf|void|\})", t) or "print" in t or "/*" in t or "*/" in t or "malloc" in t or "stdout" in t or '"' in t: continue
    if f not in LINES: LINES[f] = compiled(f)
    if k < 20 or k + 1 not in LINES[f]: continue
    a, b = r.choice(OPS)
    if a == "DEL":
        if not re.match(r"\s+[a-zA-Z_].*;\s*$", t) or re.match(r"\s+(const|register|double|int|size_t|GLU_\w+|uint\w+|return|break|continue|goto|case|char|__m128d|free)\b", t): continue
        u = re.match(r"\s*", t).group() + ";"
    else:
        m = list(re.finditer(a, t.split("//")[0]))
        if not m: continue
        q = r.choice(m); u = t[:q.start()] + b + t[q.end():]
    if (f, k, u) in seen: continue
    seen.add((f, k, u))
    occ = 0; pos = sum(len(x) + 1 for x in L[:k])
    old = t; i = -1
    while True:
        i = s.index(old, i + 1); occ += 1
        if i >= pos: break
    props = anch.get(f, []) or DIR.get(f.split("/")[1], []); props = sorted(props, key=lambda p: cost.get(p, 60))
    for e in ("P02",):
        if e not in props: props.append(e)
    out.append(("a%s_%d_%s" % (sys.argv[1], len(out), os.path.basename(f)[:-2]), ",".join(props[:7]), f[4:], (old, occ), u))
print("M=[")
for o in out: print(repr(o) + ",")
print("]")
