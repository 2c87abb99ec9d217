"""Gluon fields and correlators against a numpy Fourier transform of the
Hermitian gauge potential of the same links."""
import re, numpy as np
from itertools import product
from common import *
import ref, rsmear, rcuts
PROP = "C02"; LEVEL = "exploration"
RULE = ("random links (near unity for the logarithm, hot or warm for the linear definition, with smearing for the smeared modes), random even and odd extents 2..6, "
        "momentum caps from nothing to the whole Brillouin zone, four cuts, two field definitions, every gluon mode, 1..6 threads; "
        "distinct by variant, mode, definition, cut, extents, cap")
ASSUMPTIONS = ["normalisations are those of docs/Gluon_info.tex where the code follows it, for the instantaneous propagators the ones in the code's own comment",
               "values agree to 1e-9 of the largest; momenta are compared value by value, not by list order",
               "non-exceptional kinematics: values are compared as the multiset belonging to each first momentum"]
MIN_SIGS = 60
VAR = ["nc3", "nc2", "nc4gsl", "nc3nd3", "nc5nd3", "nc3nofft", "nc2nofft", "nc3nosse", "nc3store"]
BUILDS = VAR
MODES = ["EXCEPTIONAL", "NONEXCEPTIONAL", "FIELDS", "SMEARED_GLUONS", "INSTANTANEOUS_GLUONS", "CONFIGSPACE_GLUONS", "GLUON_PROPS"]
CUTS = ["HYPERCUBIC_CUT", "PSQ_CUT", "CYLINDER_CUT", "CYLINDER_AND_CONICAL_CUT"]

def cases(tier, seed):
    r = rng_of(PROP, seed); out = []
    for v in VAR:
        N, ND = ncnd(v)
        for mode in MODES:
            for k in range(3 if tier == "quick" else 20):
                if v.endswith("nofft") and k and mode != "CONFIGSPACE_GLUONS": continue
                d = dims_of(r, ND, 2, 6, 500)
                mm = int(r.integers(0, 14)); log = int(r.integers(2))
                if mode == "NONEXCEPTIONAL":
                    s = int(r.integers(3, 6)); d = [s] * ND
                    if ND == 3 or k == 1: d[int(r.integers(ND))] *= 2
                    if k == 2: d = [4] * ND; d[int(r.integers(ND))] = 5       # non-integer ratio
                    mm = int(r.integers(3, 8)) if min(d) < 5 else int(r.integers(4, 8))
                    mm = min(mm, 5 if min(d) <= 4 else 9) if ND == 4 else mm
                    if min(d) == 3: mm = min(mm, 4)
                out.append(dict(variant=v, label=mode.lower(), mode=mode, dims=[int(x) for x in d], cut=CUTS[(k + int(r.integers(4))) % 4],
                    log=log, kind="near" if log else ["hot", "warm", "smooth"][int(r.integers(3))], seed=int(r.integers(1 << 31)), threads=int(r.integers(1, 7)),
                    max_mom=mm, max_t=1, width=float(np.round(r.uniform(0.2, 2.0), 3)), angle=int(r.integers(5, 90)), smear=int(r.integers(0, 3)), flow=int(r.integers(0, 9999))))
    for v, V, mode in (("nc2", 30000, "GLUON_PROPS"), ("nc3", 9000, "EXCEPTIONAL"), ("nc2", 9000, "SMEARED_GLUONS"), ("nc3", 9000, "INSTANTANEOUS_GLUONS"), ("nc3", 9000, "CONFIGSPACE_GLUONS"), ("nc2nofft", 5000, "CONFIGSPACE_GLUONS")):
        out.append(dict(variant=v, label=mode.lower(), mode=mode, dims=big_dims(r, 4, V, int(1.3 * V)), cut="PSQ_CUT", log=0, kind="warm", seed=int(r.integers(1 << 31)), threads=int(r.integers(2, 7)),
                        max_mom=40, max_t=1, width=1.0, angle=30, smear=0, flow=int(r.integers(0, 9999)), cost=4))
    return out

def triplets(dims, nmax):
    """momentum triples (p, q) with p+q+r=0 and equal n^2 in units of the shortest direction"""
    s = min(dims); rat = [L // s if L % s == 0 else 0 for L in dims]
    for nn in range(0, nmax - 1, 2):
        R_ = int(np.sqrt(nn)); rng = [range(-R_, R_ + 1) if a else [0] for a in rat]
        vs = [np.array(v) for v in product(*rng) if sum(x * x for x in v) == nn]
        if not vs: continue
        W = np.array(vs)
        for p in vs:
            for q in W[((p + W) ** 2).sum(1) == nn]:
                yield [p * rat, q * rat, -(p + q) * rat]

def boucaud(p, q, r):
    """the symmetric projector; p, q, r are lattice momenta"""
    ND = len(p); I = np.eye(ND); ps = p @ p; ip = 1.0 if ps < 1e-13 else 1 / ps
    T = np.einsum("mn,r->mnr", I, p - q) + np.einsum("mr,n->mnr", I, r - p) + np.einsum("nr,m->mnr", I, q - r)
    Pp, Pq, Pr = (I - np.outer(v, v) * ip for v in (p, q, r))
    X = np.einsum("abc,am,bn,cr->mnr", T, Pp, Pq, Pr)
    X = X + 0.5 * ip * np.einsum("r,n,m->mnr", p - q, r - p, q - r)
    return X / (2 * (ND - 1) ** 2), ip

def run(c, g):
    R = Report(); dims = c["dims"]; N, ND = g.NC, g.ND; r = rng_of(c["seed"]); mode = c["mode"]
    g.setup(dims, c["threads"]); g.B.v_flow(c["flow"])
    lat = ref.Lattice(dims); V = lat.V; D1 = N * N - 1
    U = ref.near_unit(r, V * ND, N, 0.25).reshape(V, ND, N, N) if c["kind"] == "near" else ref.field(r, dims, N, c["kind"])
    sm = {}; fft = not g.variant.endswith("nofft"); S = U
    if c["smear"] and mode in ("SMEARED_GLUONS", "CONFIGSPACE_GLUONS"):
        al = [0.1] * (ND - 1); g.smalpha(al)
        sm = dict(smiters=c["smear"], smtype="SM_STOUT", smdir="ALL_DIRECTIONS")
        for _ in range(c["smear"]): S = rsmear.step(lat, S, "STOUT", al, ND, False)[0]
    ctx = "%s %s %s dims %s %s max_mom %d" % (g.variant, mode, "log" if c["log"] else "linear", dims, c["cut"], c["max_mom"])
    files, text, after = rcuts.run_mode(g, U, mode, cut=c["cut"], max_mom=c["max_mom"], max_t=c["max_t"], width=c["width"], angle=c["angle"],
        definition="LOG_DEF" if c["log"] else "LINEAR_DEF", times=2 if g.variant == "nc3store" else 1, **sm)
    sig = "%s/%s/%d/%s/%s/%d/%d" % (g.variant, mode, c["log"], c["cut"], dims, c["max_mom"], bool(sm))
    if not fft and mode != "CONFIGSPACE_GLUONS":
        if files: R.bad("nofft/" + mode, "%s: momentum-space output without a Fourier transform: %s" % (ctx, sorted(files)))
        R.ok(sig); return R.out()
    try:
        o = rcuts.lists(g, mode, files, R, c, ctx)
    except rcuts.Layout as e:
        R.bad("layout/" + mode, "%s: %s" % (ctx, e)); o = None
    if o is None: return R.out()
    site = lambda m: lat.index(np.array([m[:, k] % dims[k] for k in range(m.shape[1])] + [np.zeros(len(m), int)] * (ND - m.shape[1])))
    if mode == "CONFIGSPACE_GLUONS":
        A = rcuts.afields(lat, S, c["log"], True).reshape(dims[-1], -1, ND, N, N)[:, 0]     # zero spatial momentum on each slice
        T = dims[-1]; LCU = V // T
        w = np.array([sum(np.einsum("mab,mba->m", A[t], A[(t + tau) % T]).real for t in range(T)) for tau in range(T)])
        R.near("configspace/times", o["t"], np.arange(T), 0, ctx)
        got = o["g"]
        if fft: want = w.sum(1) / ((ND - 1) * LCU)
        else: want = 2 * w[:, :ND - 1].sum(1) / (LCU * LCU * T)
        R.near("configspace/values", got, want, 1e-9, ctx, scale=max(abs(want).max(), 1e-12))
        doc = 2 * w.sum(1) / (V * (ND - 1) * D1)
        if abs(got - doc).max() > 1e-6 * abs(doc).max():
            R.bad("configspace/documented/" + ("fftw" if fft else "without fftw"), "%s: got %s, docs/Gluon_info.tex says %s" % (ctx, got[:3], doc[:3]))
        R.ok(sig); return R.out()
    mom = o["mom"]; i = site(mom)
    if mode == "INSTANTANEOUS_GLUONS":
        A = rcuts.afields(lat, U, c["log"], True).reshape(dims[-1], -1, ND, N, N); j = i % (V // dims[-1])
        G = np.einsum("tpmab,tpmab->pm", A, A.conj()).real[j]; z = (mom % np.array(dims[:-1]) == 0).all(1)
        nm = np.where(z, 2.0 / (D1 * (ND - 1) * V), 2.0 / (D1 * (ND - 2) * V))
        for nam, got, want in (("spatial", o["a"], G[:, :ND - 1].sum(1) * nm), ("temporal", o["b"], G[:, ND - 1] * nm)):
            R.near("instantaneous/" + nam, got, want, 1e-9, ctx, scale=max(abs(want).max(), 1e-12))
        R.ok(sig); return R.out()
    def hat(m):                                       # phase convention at the zone edge follows the listed vector
        return rcuts.hatp(dims, m)
    def fields(W):
        A = rcuts.afields(lat, W, c["log"])[i]
        return A * np.exp(1j * np.pi * mom / np.array(dims))[:, :, None, None]
    A = fields(U); p = hat(mom); ps = (p * p).sum(1); z = ps < 1e-13; ips = np.where(z, 1.0, 1 / np.where(z, 1, ps))
    g2n, g0n = 2.0 / (D1 * (ND - 1) * V), 2.0 / (D1 * ND * V); nm = np.where(z, g0n, g2n)
    def tl(A):
        G = np.einsum("pmab,pnab->pmn", A, A.conj()).real
        L = np.einsum("pm,pn,pmn->p", p, p, G) * ips
        return np.einsum("pmm->p", G) - L, L
    def cmp(nam, got, want): R.near(mode.lower() + "/" + nam, got, want, 1e-9, ctx, scale=max(abs(want).max(), 1e-12))
    if mode == "FIELDS": cmp("matrices", o["A"], A)
    elif mode == "GLUON_PROPS":
        t, l = tl(A); cmp("transverse", o["a"], t * nm); cmp("longitudinal", o["b"], l * 2.0 / (D1 * V))
    elif mode == "SMEARED_GLUONS":
        t, _ = tl(A); cmp("thin", o["a"], t * nm); t, _ = tl(fields(S)); cmp("smeared", o["b"], t * nm)
    elif mode == "EXCEPTIONAL":
        cmp("two-point", o["a"], np.einsum("pmab,pmab->p", A, A.conj()).real * nm)
        A0 = A[z][0]; Ad = np.conj(np.swapaxes(A, -1, -2))
        Pi = np.eye(ND)[None] - p[:, :, None] * p[:, None, :] * ips[:, None, None]
        C = np.einsum("pmab,pnbc,rca->pmnr", A, Ad, A0)
        cmp("three-point", o["b"], np.einsum("pmn,pr,pmnr->p", Pi, p, C).real * ips * 4.0 / (2 * N * D1 * (ND - 1) * V))
    else:
        full = {}; nf = 0
        A0 = rcuts.afields(lat, U, c["log"])
        outside = False
        for tri in triplets(dims, c["max_mom"]):
            if any((2 * n >= L).any() and any(2 * a > L or (2 * a == L) for a, L in zip(n, dims)) or any(2 * a < -L for a, L in zip(n, dims)) for n, L in ((n, np.array(dims)) for n in tri)): outside = True; break
            k = [A0[lat.index(n % np.array(dims))] * np.exp(1j * np.pi * n / np.array(dims))[:, None, None] for n in tri]
            h = [hat(n) for n in tri]; X, ip = boucaud(*h)
            X = np.where(abs(X) > N * 1e-14, X, 0)
            v3 = -np.einsum("mnr,mab,nbc,rca->", X, *k).real * ip * 4.0 / (V * N * D1)
            v2 = sum((abs(a) ** 2).sum() for a in k) * 2.0 / (3 * D1 * (ND - 1) * V)
            full.setdefault(tuple(int(x) for x in tri[0]), []).append((v2, v3)); nf += 1
        if outside or nf == 0:
            if len(mom): R.bad("nonexceptional/refused", "%s: %d triplets written though the momenta leave the zone" % (ctx, len(mom)))
            R.ok(sig); return R.out()
        R.near("nonexceptional/count", len(mom), nf, 0, ctx)
        got = {}
        for m, a, b in zip(mom, o["a"], o["b"]): got.setdefault(tuple(int(x) for x in m), []).append((a, b))
        if {k: len(v) for k, v in got.items()} != {k: len(v) for k, v in full.items()}:
            R.bad("nonexceptional/momenta", "%s: listed first momenta %s..., expected %s..." % (ctx, sorted(got)[:4], sorted(full)[:4])); return R.out()
        sc2 = max(abs(x[0]) for v in full.values() for x in v); sc3 = max(abs(x[1]) for v in full.values() for x in v)
        key = lambda x: tuple(np.round(np.array(x) / [sc2, max(sc3, 1e-12)], 6))
        for k in full:
            a, b = np.array(sorted(got[k], key=key)), np.array(sorted(full[k], key=key))
            ok = R.near("nonexceptional/two-point", np.sort(a[:, 0]), np.sort(b[:, 0]), 1e-9, ctx + " p=%s" % (k,), scale=sc2) and \
                 R.near("nonexceptional/three-point", np.sort(a[:, 1]), np.sort(b[:, 1]), 1e-8, ctx + " p=%s" % (k,), scale=max(sc3, 1e-12))
            if not ok: break
    R.ok(sig)
    return R.out()
