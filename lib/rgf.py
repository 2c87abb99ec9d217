"""Gauge fixing: runs every fixing routine of the library and judges the result independently."""
import os, re, ctypes, tempfile, shutil
from ctypes import c_void_p, c_double, c_size_t, c_int, c_char_p, byref
import numpy as np
import ref
from glu import Capture
FAIL = (1 << 64) - 1

def shim(g):
    G = g.shim("gf")
    G.z_landau.argtypes = [c_void_p, c_double, c_size_t, c_char_p]; G.z_landau.restype = c_size_t
    G.z_coulomb.argtypes = [c_void_p, c_double, c_size_t]; G.z_coulomb.restype = c_size_t
    for f in ("z_orlandau", "z_orcoulomb"):
        getattr(G, f).argtypes = [c_void_p, ctypes.POINTER(c_double), c_size_t, c_double, c_double]; getattr(G, f).restype = c_size_t
    G.z_axial.argtypes = [c_void_p, c_size_t]
    G.z_mag.argtypes = G.z_residual.argtypes = [c_void_p]
    G.z_gfwrap.argtypes = [c_void_p, c_char_p, c_int, c_double, c_size_t]
    G.z_functional.argtypes = [c_void_p]; G.z_functional.restype = c_double
    for f in ("z_theta_lin", "z_theta_log"):
        getattr(G, f).argtypes = [c_void_p, ctypes.POINTER(c_double), c_size_t]; getattr(G, f).restype = c_double
    G.z_const_time.argtypes = [c_void_p, ctypes.POINTER(c_double), ctypes.POINTER(c_double)]
    G.z_slice_functional.argtypes = [c_void_p, c_void_p, c_size_t]; G.z_slice_functional.restype = c_double
    G.z_gauge_test.argtypes = [c_void_p]; G.z_gauge_test.restype = c_double
    G.z_write.argtypes = [c_void_p, c_char_p, c_int]
    return G

GFTYPE = dict(none=0, axial=1, coulomb=2, coulomb_residual=3, landau=4, mag=5)

class Run: pass

def fix(g, U, mode, acc=1e-12, iters=500, alpha=0.08, file="good", direction=None, head=1, orpar=0.5):
    """one gauge fixing of the field U; file: good, missing, none"""
    G = shim(g); p = g.lat(U); o = Run()
    tmp = tempfile.mkdtemp(prefix="gf")
    try:
        path = os.path.join(tmp, "conf").encode()
        g.B.v_flow(7)
        if file == "good" and mode in ("landau", "wrap:landau") and head == 1:
            with Capture(g.B): rc = G.z_write(p, path, 3)
        g.B.v_gfalpha(alpha); g.B.v_head(head)
        g.set(p, U)
        o.func0 = G.z_functional(p)
        th = c_double(0)
        with Capture(g.B) as cap:
            if mode == "landau": o.ret = G.z_landau(p, acc, iters, path)
            elif mode == "coulomb": o.ret = G.z_coulomb(p, acc, iters)
            elif mode == "orlandau": o.ret = G.z_orlandau(p, byref(th), iters, acc, orpar)
            elif mode == "orcoulomb": o.ret = G.z_orcoulomb(p, byref(th), iters, acc, orpar)
            elif mode == "axial": o.ret = G.z_axial(p, g.ND - 1 if direction is None else direction)
            elif mode == "mag": o.ret = G.z_mag(p)
            elif mode == "residual": o.ret = G.z_residual(p)
            elif mode.startswith("wrap:"): o.ret = G.z_gfwrap(p, path, GFTYPE[mode[5:]], acc, iters)
            else: raise KeyError(mode)
        o.theta = th.value; o.text = cap.text; o.W = g.get(p); o.func = G.z_functional(p)
        g.B.v_head(1); g.B.v_flow(0)
    finally:
        g.free(p); shutil.rmtree(tmp, ignore_errors=True)
    o.restarts = len(re.findall(r"Randomly-restarting", o.text)) + len(re.findall(r"random gauge transform", o.text))
    o.slices = [(int(t), w, float(a)) for t, w, a in
                re.findall(r"Slice :: (\d+) \{Stopped by ([^}]*)\}\s*\n?\[GF\] Accuracy :: (\S+)", o.text)]
    m = re.search(r"^\[GF\] Accuracy :: (\S+)", o.text, re.M)
    o.acc = float(m.group(1)) if m else None
    return o

def paths(lat, U):
    """product of links from the origin to every site along the maximal tree"""
    V, N = lat.V, U.shape[-1]; ND = lat.ND
    P = np.zeros((V, N, N), complex); P[lat.index(np.zeros((ND, 1), int))[0]] = np.eye(N)
    tree = np.zeros((V, ND), bool)
    for mu in range(ND):
        base = (lat.x[mu + 1:] == 0).all(axis=0) if mu + 1 < ND else np.ones(V, bool)
        for k in range(lat.dims[mu] - 1):
            s = np.nonzero(base & (lat.x[mu] == k))[0]
            P[lat.fw[mu][s]] = P[s] @ U[s, mu]; tree[s, mu] = True
    return P, tree

def find_transform(lat, U, W):
    """(g, defect): special unitary field g with W = gU if the fields are gauge equivalent;
       defect is the smallest singular value of the intertwiner equations per link.
       g is None when U is reducible (g not unique)"""
    N = U.shape[-1]
    PU, tree = paths(lat, U); PW, _ = paths(lat, W)
    A, B = [], []
    for mu in range(lat.ND):
        s = np.nonzero(~tree[:, mu])[0]; f = lat.fw[mu][s]
        A.append(PU[s] @ U[s, mu] @ ref.dag(PU[f])); B.append(PW[s] @ W[s, mu] @ ref.dag(PW[f]))
    A = np.concatenate(A); B = np.concatenate(B)
    I = np.eye(N)
    # rows: vec is row-major: vec(g A - B g) = (kron(I,A^T) - kron(B,I)) vec(g)
    K = np.einsum("ij,nlk->nikjl", I, A).reshape(len(A), N * N, N * N) - np.einsum("nij,kl->nikjl", B, I).reshape(len(A), N * N, N * N)
    M = np.einsum("nab,nac->bc", K.conj(), K)
    w, v = np.linalg.eigh(M)
    defect = np.sqrt(max(w[0], 0) / len(A))
    if w[1] / len(A) < 1e-5: return None, defect
    g0 = v[:, 0].reshape(N, N); g0 = g0 / (abs(np.linalg.det(g0)) ** (1. / N)); g0 = g0 / np.linalg.det(g0) ** (1. / N)
    return ref.dag(PW) @ g0 @ PU, defect

def hproj(U):
    N = U.shape[-1]
    A = (U - ref.dag(U)) / 2j
    return A - np.eye(N) * (np.trace(A, axis1=-2, axis2=-1) / N)[..., None, None]

def divergence(lat, U, dirs):
    A = hproj(U)
    return sum(A[:, m] - A[lat.bw[m], m] for m in range(dirs))

def theta_site(lat, U, dirs):
    """Tr of the squared lattice divergence at every site"""
    D = divergence(lat, U, dirs)
    return np.einsum("vij,vji->v", D, D).real

def functional(U, dirs=None):
    d = U.shape[1] if dirs is None else dirs
    return 1 - np.trace(U[:, :d], axis1=-2, axis2=-1).real.mean() / U.shape[-1]
