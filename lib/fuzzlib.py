"""Builds the libFuzzer target (clang, without OpenMP) from /repo's tree."""
import os, fcntl, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
import build as B
FLAGS = ["-std=gnu11", "-g1", "-O1", "-msse2", "-w", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link,address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined,float-cast-overflow"]
def build():
    os.makedirs(B.BUILD, exist_ok=True); src = os.path.join(B.HERE, "shim", "fuzz.c")
    key = hashlib.sha256((B.tree_digest() + repr(FLAGS) + B.MEM + open(src).read()).encode()).hexdigest()[:16]; D = os.path.join(B.BUILD, "fuzz-" + key); exe = os.path.join(D, "fuzz")
    with open(os.path.join(B.BUILD, "fuzz.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            for old in os.listdir(B.BUILD):
                if old.startswith("fuzz-"): shutil.rmtree(os.path.join(B.BUILD, old), ignore_errors=True)
            os.makedirs(D); open(os.path.join(D, "config.h"), "w").write(B.config_h(B.V(omp=False)))
            open(os.path.join(D, "latt.c"), "w").write('#include "Mainfile.h"\nstruct latt_info Latt ;\n'); open(os.path.join(D, "mem.c"), "w").write(B.MEM)
            inc = ["-DHAVE_CONFIG_H", "-I" + D, "-I" + os.path.join(B.REPO, "src/Headers")]; jobs = []
            for i, s in enumerate(B.sources() + [os.path.join(D, "latt.c"), os.path.join(D, "mem.c"), src]):
                o = os.path.join(D, "%d.o" % i); jobs.append((["clang"] + FLAGS + inc + ["-c", s, "-o", o], o))
            with ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: B._run(j[0]), jobs))
            B._run(["clang", "-fsanitize=fuzzer,address,undefined"] + [o for _, o in jobs] + ["-Wl,--wrap=sysconf", "-lfftw3", "-lm", "-o", exe + ".tmp"])
            for _, o in jobs: os.unlink(o)
            os.rename(exe + ".tmp", exe)
    return exe
WORDS = ["BEGIN_HEADER", "END_HEADER", "DATATYPE", "4D_SU3_GAUGE", "4D_SU3_GAUGE_3x3", "DIMENSION_1", "DIMENSION_4", "CHECKSUM", "LINK_TRACE", "PLAQUETTE", "FLOATING_POINT", "IEEE64BIG", "IEEE32LITTLE", "SEQUENCE_NUMBER",
         "ildg-format", "ildg-binary-data", "scidac-checksum", "scidac-private-file-xml", "scidac-binary-data", "<precision>", "</precision>", "<lx>", "</lx>", "<lt>", "<dims>", "<suma>", "<sumb>", "<plaquette>", "<cksum>", "<field>", "<colors>", "<spins>", "<volfmt>", "<typesize>", "<datacount>", "xlf-info", "bqcd", "4294967297", "99999999999",
         "MODE", "HEADER", "DIM_0", "CONFNO", "RANDOM_TRANSFORM", "SEED", "GFTYPE", "GF_TUNE", "CUTTYPE", "MAXMOM", "SMEARTYPE", "ALPHA1", "STORAGE", "CONFIG_INFO", "BETA", " = "]
def dictionary(wd):
    p = os.path.join(wd, "dict.txt"); open(p, "w").write("".join('"%s"\n' % w.replace("\\", "\\\\").replace('"', '\\"') for w in WORDS) + '"Eg\\x89\\xab"\n"\\xff\\xff\\xff\\xff"\n"\\x00\\x00\\x00\\x04"\n'); return p
