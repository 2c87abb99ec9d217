"""Runs the real GLU program in a scratch directory."""
import os, subprocess, re
import fw, build

BASE = dict(MODE="REWRITE", HEADER="NERSC", DIM_0="4", DIM_1="4", DIM_2="4", DIM_3="4", CONFNO="7", RANDOM_TRANSFORM="NO", SEED="1234",
            GFTYPE="LANDAU", GF_TUNE="0.08", ACCURACY="8", MAX_ITERS="200", CUTTYPE="GLUON_PROPS", FIELD_DEFINITION="LINEAR", MOM_CUT="SPHERICAL_CUT",
            MAX_T="3", MAXMOM="4", CYL_WIDTH="2.0", ANGLE="60", OUTPUT="./", SMEARTYPE="APE", DIRECTION="ALL", SMITERS="1", ALPHA1="0.4", ALPHA2="0.3", ALPHA3="0.2",
            U1_MEAS="U1_PLAQUETTE", U1_ALPHA="0.1", U1_CHARGE="1.0", CONFIG_INFO="test", STORAGE="NERSC_NCxNC", BETA="5.5", ITERS="4", MEASURE="1", OVER_ITERS="1", SAVE="2", THERM="1")
HEADERTAG = {"NERSC_SMALL": "NERSC", "NERSC_GAUGE": "NERSC", "NERSC_NCxNC": "NERSC", "MILC": "MILC", "ILDG": "ILDG_SCIDAC", "SCIDAC": "SCIDAC", "HIREP": "HIREP", "CERN": "CERN", "BQCD": "ILDG_BQCD", "LIME": "LIME", "JLQCD": "JLQCD"}

def settings(ND, **over):
    s = dict(BASE)
    for k in range(4, ND): s["DIM_%d" % k] = "4"; s["ALPHA%d" % k] = "0.1"
    s.update({k: str(v) for k, v in over.items()}); return s
def text(s): return "".join("%s = %s\n" % kv for kv in s.items() if kv[1] is not None)
def with_dims(s, dims):
    s = dict(s)
    for i, d in enumerate(dims): s["DIM_%d" % i] = str(d)
    return s

class Result:
    def __init__(self, rc, out, err): self.rc, self.out, self.err = rc, out, err; self.text = out + "\n--- stderr\n" + err
    @property
    def crashed(self): return self.rc is None or self.rc < 0 or "ERROR: AddressSanitizer" in self.err or "runtime error:" in self.err
    @property
    def failed(self): return self.rc not in (0, None)

def run(g, wd, inp, conf=None, out=None, threads=1, mem=None, env=None, timeout=200, argv=None, pre=None):
    """inp: text or settings; returns Result, rc None on timeout"""
    if isinstance(inp, dict): inp = text(inp)
    if inp is not None:
        with open(os.path.join(wd, "in.txt"), "w" if isinstance(inp, str) else "wb") as f: f.write(inp)
    cmd = [os.path.join(g.dir, "GLU")] + (argv if argv is not None else ["-i", "in.txt", "-c", conf] + (["-o", out] if out is not None else []))
    e = dict(os.environ); e.update(OMP_NUM_THREADS=str(threads), OMP_DYNAMIC="false", OMP_WAIT_POLICY="passive"); e.pop("GLU_VERIF_BYTES", None)
    e.pop("LD_PRELOAD", None)
    if g.variant.endswith("_san"): fw.san_env(e, g.variant)
    if mem: e["GLU_VERIF_BYTES"] = str(int(mem))
    e.update(env or {})
    try: r = subprocess.run(cmd, cwd=wd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=pre)
    except subprocess.TimeoutExpired as x: return Result(None, (x.stdout or b"").decode(errors="replace"), (x.stderr or b"").decode(errors="replace"))
    return Result(r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"))

def tight(N, ND, V):
    """an amount of memory with room for the field but not for a second copy"""
    return 1.1 * (V * (N * N * ND * 16 + 8 * ND)) + 64
