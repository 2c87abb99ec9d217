"""Reads and writes configurations through the library."""
import os, ctypes
import numpy as np
from glu import P, Capture
import rio

def setup(g):
    S = g.shim("upd"); C = ctypes
    S.u_read.argtypes = [C.c_char_p, C.c_int, C.c_void_p]; S.u_read.restype = C.c_void_p
    S.u_write.argtypes = [C.c_void_p, C.c_char_p, C.c_int, C.c_char_p]; return S

def write(g, dims, U, path, fmt, flow=5, details=b"test", threads=1, keep=None):
    """-> status, printed text"""
    S = setup(g); g.setup(dims, threads, 3, rio.header_of(fmt)); g.B.v_flow(flow); p = g.lat(U)
    with Capture(g.B) as cap: st = S.u_write(p, os.fsencode(path), rio.STORAGE[fmt], details)
    if keep is not None: keep.append(g.get(p))
    g.free(p); return st, cap.text

def read(g, path, head, threads=1, start=None):
    """-> links or None, dims, flow, printed text; start: what the geometry says before"""
    S = setup(g); g.setup(start or [2] * g.ND, threads, 3, head); g.B.v_flow(77); st = np.zeros(1, np.int32)
    with Capture(g.B) as cap: q = S.u_read(os.fsencode(path), head, P(st))
    d = np.zeros(g.ND, np.int32); g.B.v_getdims(P(d)); d = [int(x) for x in d]
    U = None
    if q: g.dims = d; g.V = int(np.prod(d)); U = g.get(q); g.free(q)
    return U, d, g.B.v_getflow(), cap.text
COMPLAINTS = ("Unequal", "Mismatch", "mismatch", "NONE of")
def complaint(t): return next((l for l in t.split("\n") if any(c in l for c in COMPLAINTS)), None)
