"""Compiles the GLU sources of /repo's current working tree into variants.

A variant is one value of the compile-time parameters (NC, ND, FFTW, GSL, SSE,
sanitizers, ...). Results live in /verif/.build/<variant>-<digest> where the
digest covers every source byte and flag, so an edited tree is always rebuilt.
"""
import hashlib, os, re, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GLU_REPO", "/repo")
BUILD = os.environ.get("GLU_BUILD", os.path.join(HERE, ".build"))

BASE = dict(NC=3, ND=4, fftw=True, gsl=False, sse=True, san=None, opt="-O2",
            omp=True, defs=())

def V(**k):
    d = dict(BASE); d.update(k); return d

# the five configurations the project's own build covers, then further ones
VARIANTS = {
    "nc3": V(), "nc2": V(NC=2), "nc4": V(NC=4, fftw=False),
    "nc5nd3": V(NC=5, ND=3), "nc4gsl": V(NC=4, gsl=True),
    # other supported compile-time choices
    "nc3nofft": V(fftw=False), "nc3nosse": V(sse=False),
    "nc2nofft": V(NC=2, fftw=False),
    "nc2nosse": V(NC=2, sse=False), "nc4nosse": V(NC=4, fftw=False, sse=False),
    "nc5": V(NC=5), "nc3nd3": V(ND=3), "nc2nd3": V(NC=2, ND=3),
    "nc3gsl": V(gsl=True), "nc6": V(NC=6, fftw=False),
    "nc3clover": V(defs=("CLOVER_IMPROVE",)),
    "nc3cloverk5": V(defs=("CLOVER_IMPROVE", "k5=0.05")),
    "nc2clover": V(NC=2, defs=("CLOVER_IMPROVE",)),
    "nc3luxury": V(defs=("LUXURY_GAUGE=5",)),
    "nc3sd": V(defs=("GLU_GFIX_SD",)),
    "nc2sd": V(NC=2, defs=("GLU_GFIX_SD",)),
    "nc3exact": V(defs=("exp_exact",)), "nc4exact": V(NC=4, fftw=False, defs=("exp_exact",)),
    "nc3or": V(defs=("OVERRELAXED_GF",)),
    "nc3nstoch": V(defs=("NSTOCH=2",)), "nc4nstoch": V(NC=4, fftw=False, defs=("NSTOCH=3",)),
    "nc3mwc1038": V(defs=("MWC_1038_RNG",)), "nc3xor": V(defs=("XOR_1024_RNG",)), "nc3well": V(defs=("WELL_512_RNG",)),
    "nc3gslrng": V(gsl=True, defs=("GSL_RNG",)),
    "nc3kiss": V(defs=("KISS_RNG",)),
    # remembers momentum lists and FFT plans below the current directory
    "nc3store": V(defs=("NOT_CONDOR_MODE", 'HAVE_PREFIX="."')),
    "nc3symanzik": V(defs=("SYMANZIK", "IMPROVED_SMEARING")),
    "nc2iwasaki": V(NC=2, defs=("IWASAKI", "IMPROVED_SMEARING")), "nc4dbw2": V(NC=4, fftw=False, defs=("DBW2", "IMPROVED_SMEARING")),
    "nc5nd3symanzik": V(NC=5, ND=3, defs=("SYMANZIK", "IMPROVED_SMEARING")),
    # flows measured from and stopped at other times than the usual
    "nc3meas": V(defs=("WFLOW_MEAS_START=0.3", "WFLOW_TIME_STOP=1.1")), "nc2timeonly": V(NC=2, defs=("WFLOW_TIME_ONLY", "WFLOW_TIME_STOP=0.8")),
}
for _n in ("nc3", "nc2", "nc4", "nc5nd3", "nc4gsl", "nc3nofft", "nc3nosse",
           "nc3sd", "nc3clover"):
    d = dict(VARIANTS[_n]); d["san"] = "asan"; d["opt"] = "-O1"
    VARIANTS[_n + "_san"] = d

def usual(v):
    """one of the configurations /opt/vp/build.sh makes, with or without sanitizers"""
    return v.split("_")[0] in ("nc3", "nc2", "nc4", "nc5nd3", "nc4gsl")

# programs for ThreadSanitizer, on an OpenMP runtime of our own it can follow
for _n in ("nc3", "nc2", "nc5nd3", "nc3or", "nc3sd", "nc3clover", "nc4nosse", "nc3nofft"):
    d = dict(VARIANTS[_n]); d["san"] = "tsan"; d["opt"] = "-O1"
    VARIANTS[_n + "_tsan"] = d

SANFLAGS = {
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
    "asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined,float-cast-overflow",
             "-fno-omit-frame-pointer"],
    None: [],
}

def sources():
    """the library's sources as the project's own Makefile.am lists them"""
    txt = open(os.path.join(REPO, "src/Makefile.am")).read()
    txt = re.sub(r"\\\n", " ", txt)
    txt = re.sub(r"#.*", "", txt)
    out = []
    for m in re.finditer(r"^[A-Za-z0-9_]+\s*=\s*(.*)$", txt, re.M):
        for f in m.group(1).split():
            if f.endswith(".c") and "%" not in f and "$" not in f:
                p = os.path.normpath(os.path.join(REPO, "src", f))
                if p not in out and os.path.exists(p) and "/Run/" not in p:
                    out.append(p)
    return out

def tree_digest():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".c", ".h", ".am")):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def config_h(v):
    L = ["HAVE_COMPLEX_H", "HAVE_INTTYPES_H", "HAVE_LIMITS_H", "HAVE_MATH_H",
         "HAVE_STDINT_H", "HAVE_STDIO_H", "HAVE_STDLIB_H", "HAVE_STRINGS_H",
         "HAVE_STRING_H", "HAVE_SYS_STAT_H", "HAVE_SYS_TIME_H",
         "HAVE_SYS_TYPES_H", "HAVE_TIME_H", "HAVE_UNISTD_H"]
    s = "".join("#define %s 1\n" % x for x in L)
    if not any(d.startswith("HAVE_PREFIX") for d in v["defs"]):
        s += '#define HAVE_PREFIX "/nonexistent-glu-prefix"\n'
    if v["omp"]: s += "#define HAVE_OMP_H 1\n"
    if v["fftw"]: s += "#define HAVE_FFTW3_H\n"
    if v["gsl"]: s += "#define HAVE_GSL\n#define HAVE_GSL_GSL_EIGEN_H 1\n"
    if v["sse"]: s += "#define HAVE_IMMINTRIN_H 1\n"
    if v["NC"] != 3: s += "#define NC %d\n" % v["NC"]
    if v["ND"] != 4: s += "#define ND %d\n" % v["ND"]
    for d in v["defs"]:
        k, _, val = d.partition("=")
        s += "#define %s %s\n" % (k, val)
    return s

MEM = """#include <unistd.h>
#include <stdlib.h>
long __real_sysconf( int name ) ;
long __wrap_sysconf( int name )
{
  const char *m = getenv( "GLU_VERIF_BYTES" ) ;
  if( m != NULL && name == _SC_PAGESIZE ) return 1 ;
  if( m != NULL && ( name == _SC_PHYS_PAGES || name == _SC_AVPHYS_PAGES ) ) return atol( m ) ;
  return __real_sysconf( name ) ;
}
"""

class BuildError(Exception):
    pass

def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])

_HDRS = []

def _compile(job, cfg):
    """one object; GLU_VERIF_OBJCACHE names a folder of objects to take unchanged
    ones from (a convenience of development only, no registered command sets it)"""
    cmd, o = job
    cache = os.environ.get("GLU_VERIF_OBJCACHE")
    if not cache:
        return _run(cmd)
    if not _HDRS:
        h = hashlib.sha256()
        for root, dirs, files in os.walk(os.path.join(REPO, "src")):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".h"): h.update(open(os.path.join(root, f), "rb").read())
        _HDRS.append(h.hexdigest())
    src = cmd[cmd.index("-c") + 1]
    c = os.path.join(cache, hashlib.sha256((cfg + _HDRS[0] + src).encode() + open(src, "rb").read()).hexdigest())
    if os.path.exists(c):
        shutil.copyfile(c, o)
        return
    _run(cmd)
    shutil.copyfile(o, c + ".%d" % os.getpid())
    os.rename(c + ".%d" % os.getpid(), c)

def build(name, exe=False, digest=None):
    """-> directory with libglu.so and, with exe, the GLU program"""
    v = VARIANTS[name]
    os.makedirs(BUILD, exist_ok=True)
    cfg = config_h(v)
    flags = ["-std=gnu11", "-g1", v["opt"], "-msse2", "-fPIC", "-w"]
    if v["omp"]: flags.append("-fopenmp")
    flags += SANFLAGS[v["san"]]
    dg = digest or tree_digest()
    rt = open(os.path.join(HERE, "shim", "gomp.c")).read() if v["san"] == "tsan" else ""
    key = hashlib.sha256((dg + cfg + repr(flags) + MEM + rt).encode()).hexdigest()[:16]
    D = os.path.join(BUILD, "%s-%s" % (name, key))
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(D, "ok")):
            for old in os.listdir(BUILD):
                if old.startswith(name + "-"):
                    shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
            os.makedirs(D)
            open(os.path.join(D, "config.h"), "w").write(cfg)
            srcs = sources()
            if len(srcs) < 40:
                raise BuildError("source list of src/Makefile.am not understood")
            inc = ["-I" + D, "-I" + os.path.join(REPO, "src/Headers")]
            main = os.path.join(REPO, "src/Run/Mainfile.c")
            jobs = []
            for s in srcs + [main]:
                o = os.path.join(D, os.path.relpath(s, os.path.join(REPO, "src"))
                                 .replace("/", "_")[:-2] + ".o")
                jobs.append((["gcc"] + flags + inc + ["-c", s, "-o", o], o))
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda j: _compile(j, cfg + repr(flags)), jobs))
            libs = []
            if v["fftw"]: libs += ["-lfftw3_omp", "-lfftw3"]
            if v["gsl"]: libs += ["-lgsl", "-lgslcblas"]
            libs += ["-lm"]
            objs = [o for _, o in jobs]
            # the .so carries Latt itself (the program would define it)
            latt = os.path.join(D, "latt.c")
            open(latt, "w").write('#include "Mainfile.h"\nstruct latt_info Latt ;\n')
            # how much memory the machine reports can be chosen from outside
            mem = os.path.join(D, "mem.c")
            open(mem, "w").write(MEM)
            libs = ["-Wl,--wrap=sysconf", mem] + libs
            if v["san"] == "tsan":
                rt = os.path.join(D, "gomp.o")
                _run(["gcc", "-std=gnu11", "-O1", "-w", "-fsanitize=thread", "-c", os.path.join(HERE, "shim", "gomp.c"), "-o", rt])
                libs = [l for l in libs if l != "-lfftw3_omp"]
                try:
                    _run(["gcc"] + [f for f in flags if f != "-fopenmp"] + objs + [rt] + ["-o", os.path.join(D, "GLU")] + libs + ["-lpthread"])
                except BuildError as e:
                    # constructs our runtime does not have: nothing to run
                    open(os.path.join(D, "unlinked"), "w").write(str(e))
                for o in objs: os.unlink(o)
                open(os.path.join(D, "ok"), "w").write("")
                return D
            _run(["gcc"] + flags + inc + ["-shared", "-Wl,-Bsymbolic-functions", latt]
                 + objs[:-1] + ["-o", os.path.join(D, "libglu.so")] + libs)
            _run(["gcc"] + flags + objs + ["-o", os.path.join(D, "GLU")] + libs)
            for o in objs: os.unlink(o)
            open(os.path.join(D, "ok"), "w").write("")
    return D

def build_shim(name, area, digest=None):
    """the C glue of one area, linked against the variant's library"""
    D = build(name, digest=digest)
    v = VARIANTS[name]
    src = os.path.join(HERE, "shim", area + ".c")
    h = hashlib.sha256(open(src, "rb").read()
                       + open(os.path.join(HERE, "shim", "shim.h"), "rb").read()).hexdigest()[:12]
    so = os.path.join(D, "%s-%s.so" % (area, h))
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(so):
            flags = ["-std=gnu11", "-g1", v["opt"], "-msse2", "-fPIC", "-w",
                     "-Werror=implicit-function-declaration", "-Werror=int-conversion"]
            if v["omp"]: flags.append("-fopenmp")
            flags += SANFLAGS[v["san"]]
            _run(["gcc"] + flags + ["-I" + D, "-I" + os.path.join(REPO, "src/Headers"),
                  "-shared", src, "-o", so + ".tmp", "-L" + D, "-lglu",
                  "-Wl,-rpath," + D, "-lm"])
            os.rename(so + ".tmp", so)
    return so

if __name__ == "__main__":
    for n in (sys.argv[1:] or VARIANTS):
        try:
            print(n, build(n))
        except BuildError as e:
            print(n, "FAILED", str(e)[-600:])
