"""ctypes access to one compiled variant of GLU, for use inside a worker."""
import ctypes, os, sys, tempfile
import numpy as np
from ctypes import c_void_p, c_int, c_double, c_size_t, c_uint, c_char_p, POINTER, byref
import build

c_void_p = c_void_p
def P(a):
    return a.ctypes.data_as(c_void_p)

class Glu:
    """one variant's library"""
    def __init__(self, variant, digest=None):
        self.variant = variant
        self.dir = build.build(variant, digest=digest)
        self.digest = digest
        self.L = ctypes.CDLL(os.path.join(self.dir, "libglu.so"), mode=ctypes.RTLD_GLOBAL)
        self.B = self.shim("base")
        B = self.B
        B.v_alloc.restype = c_void_p
        B.v_free.argtypes = [c_void_p]
        B.v_set.argtypes = [c_void_p, c_void_p]
        B.v_get.argtypes = [c_void_p, c_void_p]
        B.v_galloc.restype = c_void_p
        B.v_galloc.argtypes = [c_void_p]
        B.v_gget.argtypes = [c_void_p, c_void_p]
        B.v_gfree.argtypes = [c_void_p]
        B.v_nav.argtypes = [c_void_p, c_void_p, c_void_p]
        B.v_gfalpha.argtypes = [c_double]
        B.v_smalpha.argtypes = [c_void_p]
        B.v_volume.restype = c_size_t
        B.v_flow.argtypes = [c_size_t]
        B.v_getflow.restype = c_size_t
        self.NC = B.v_NC()
        self.ND = B.v_ND()

    def shim(self, area):
        return ctypes.CDLL(build.build_shim(self.variant, area, digest=self.digest))

    def setup(self, dims, threads=1, seed=1234, head=1):
        self.dims = list(dims)
        assert len(dims) == self.ND
        d = np.array(dims, dtype=np.int32)
        self.B.v_setup(P(d), threads, seed, head)
        self.V = int(np.prod(dims))

    def smalpha(self, a):
        a = np.array(a, dtype=float)
        self.B.v_smalpha(P(a))

    def lat(self, U=None):
        p = self.B.v_alloc()
        if not p: raise RuntimeError("allocate_lat failed")
        if U is not None: self.set(p, U)
        return p

    def set(self, p, U):
        U = np.ascontiguousarray(U, dtype=np.complex128)
        assert U.shape == (self.V, self.ND, self.NC, self.NC), U.shape
        self.B.v_set(p, P(U))

    def get(self, p):
        U = np.zeros((self.V, self.ND, self.NC, self.NC), dtype=np.complex128)
        self.B.v_get(p, P(U))
        return U

    def free(self, p):
        self.B.v_free(p)

    def gfield(self, g=None):
        if g is None: return self.B.v_galloc(None)
        g = np.ascontiguousarray(g, dtype=np.complex128)
        return self.B.v_galloc(P(g))

    def gget(self, p):
        g = np.zeros((self.V, self.NC, self.NC), dtype=np.complex128)
        self.B.v_gget(p, P(g))
        return g

class Capture:
    """collects what the library prints on stdout/stderr"""
    def __init__(self, B):
        self.B = B
    def __enter__(self):
        self.B.v_flush()
        sys.stdout.flush(); sys.stderr.flush()
        # left behind for whoever started this process if it ends in here
        self.name = os.environ.get("GLUV_CAPTURE")
        self.f = open(self.name, "w+b") if self.name else tempfile.TemporaryFile()
        self.o1, self.o2 = os.dup(1), os.dup(2)
        os.dup2(self.f.fileno(), 1); os.dup2(self.f.fileno(), 2)
        return self
    def __exit__(self, *a):
        self.B.v_flush()
        os.dup2(self.o1, 1); os.dup2(self.o2, 2)
        os.close(self.o1); os.close(self.o2)
        self.f.seek(0)
        self.text = self.f.read().decode(errors="replace")
        self.f.close()
        if self.name and os.path.exists(self.name): os.remove(self.name)
