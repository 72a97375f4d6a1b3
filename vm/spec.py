"""
Reference spectra (masks, see fock.py): transition operators, resolvent sums, Kramers-Heisenberg amplitudes.
Every reference value comes with the tolerance that the algorithm's documented parameters (Krylov size, weight
cutoff, tolerance of the linear solver) imply for the case; MAX_REL limits which cases are compared.
"""
import math

import numpy as np
from scipy.special import spherical_jn

from vm import atomic, fock, krylov


# ---- transition operators
def rhat(l2, m2, l1, m1, n):
    """<l2 m2| n.r/|r| |l1 m1>, angular part only, by quadrature."""
    th, ph, w = atomic.sphere()
    f = n[0] * np.sin(th) * np.cos(ph) + n[1] * np.sin(th) * np.sin(ph) + n[2] * np.cos(th)
    return complex(np.sum(np.conj(atomic.y_grid(l2, m2)) * f * atomic.y_grid(l1, m1) * w))


def dipole(ix, l1, l2, n, tol=1e-12):
    """From shell l1 into shell l2."""
    out = {}
    for m2 in range(-l2, l2 + 1):
        for m1 in range(-l1, l1 + 1):
            v = rhat(l2, m2, l1, m1, n)
            if abs(v) > tol:
                for s in (0, 1):
                    out[((ix[(l2, s, m2)], "c"), (ix[(l1, s, m1)], "a"))] = v
    return out


def radial(k, q, Ri, Rj, r):
    f = np.conj(Ri) * spherical_jn(k, q * np.asarray(r)) * Rj * np.asarray(r) ** 2
    return np.sum((f[1:] + f[:-1]) / 2 * np.diff(r))


def nixs(ix, q, li, lj, Ri, Rj, r, kmin=1, tol=0.0):
    """<i|exp(iq.r)|j>/sqrt(4 pi) with the multipoles k >= kmin."""
    q = np.asarray(q, dtype=float)
    qn = float(np.linalg.norm(q))
    th, ph = math.atan2(math.hypot(q[0], q[1]), q[2]), math.atan2(q[1], q[0])
    out = {}
    for mi in range(-li, li + 1):
        for mj in range(-lj, lj + 1):
            v = 0.0
            for k in range(kmin, li + lj + 1):
                m = mi - mj
                if (li + lj + k) % 2 == 0 and abs(m) <= k:
                    v = v + 4 * math.pi * 1j**k * radial(k, qn, Ri, Rj, r) * np.conj(atomic.ylm(k, m, th, ph)) * atomic.y3(li, mi, k, m, lj, mj)
            v = v / math.sqrt(4 * math.pi)
            if abs(v) > tol:
                for s in (0, 1):
                    out[((ix[(li, s, mi)], "c"), (ix[(lj, s, mj)], "a"))] = complex(v)
    return out


def photo(ix, l, action):
    return [{((ix[(l, s, m)], action),): 1} for s in (0, 1) for m in range(-l, l + 1)]


# ---- spectra
def cutoff(psi, cut):
    return {k: v for k, v in psi.items() if abs(v) ** 2 >= cut}


def excited(top, psi, rm):
    return {k: v for k, v in fock.apply_op(top, psi, rm).items() if v != 0}


def weak_rows(top, psi, rm, cut):
    """Norm of the part of T|psi> that comes from matrix elements below the cutoff (dropped when rows are stored)."""
    d = {}
    o = fock.Op(top)
    for m, a in psi.items():
        for x, v in o.row(m, rm).items():
            if abs(v) ** 2 < 1.01 * cut:
                d[x] = d.get(x, 0) + a * v
    return fock.norm2(d) ** 0.5


def spectrum(op, top, psi, e, w, delta, rm=None, k=150, cut=0.0, cache=None):
    """<psi|T+ (w + i delta + E - H)^-1 T|psi> and the absolute tolerance; None if the method itself is too inaccurate."""
    w = np.asarray(w, dtype=float)
    f = excited(top, psi, rm)
    if not f:
        return np.zeros(len(w), dtype=complex), 0.0
    z = w + 1j * delta + e
    g, sp, err = krylov.green_and_tolerance(op, f, z, k, rm, cache)
    if err > krylov.MAX_ERR:
        return None
    top_g = np.max(np.abs(g))
    tol = krylov.tolerance(err) * top_g
    if cut:
        fc = cutoff(f, cut)
        gc = fock.green(op, fc, z, rm, cache)
        tol += 1.5 * np.max(np.abs(g - gc))
        d = weak_rows(top, psi, rm, cut)
        if d:
            # with the weak elements dropped further components can fall below the cutoff
            tol += (2 * fock.norm2(f) ** 0.5 * d + d * d) / abs(delta)
            low = {x: v for x, v in f.items() if abs(v) ** 2 >= (cut**0.5 + d) ** 2}
            tol += 1.5 * np.max(np.abs(g - fock.green(op, low, z, rm, cache)))
        # later cutoffs on normalised states
        tol += 4 * (cut * len(sp.basis)) ** 0.5 * top_g * 1e-3
    return g, float(tol)


def rixs(op, tin, tout, psi, e, wins, wloss, d1, d2, rm=None, k=150, cut=0.0, rtol=1e-5, cache=None):
    """[wIn, wLoss] Kramers-Heisenberg amplitude and absolute tolerances (per wIn); None if not comparable."""
    wins, wloss = np.asarray(wins, dtype=float), np.asarray(wloss, dtype=float)
    out = np.zeros((len(wins), len(wloss)), dtype=complex)
    tol = np.zeros(len(wins))
    y = excited(tin, psi, rm)
    if not y:
        return out, tol
    ya = cutoff(y, cut) if cut else y
    sp = fock.space(op, y, rm, cache)
    ny = fock.norm2(y) ** 0.5
    tn = sum(abs(v) for v in tout.values()) if rtol > 1e-8 else 0.0  # bound of the operator norm
    z = wloss + 1j * d2 + e
    space3 = None
    for i, win in enumerate(wins):
        x = sp.solve(y, win + 1j * d1 + e)
        f = excited(tout, x, rm)
        if not f:
            continue
        if space3 is None:
            space3 = _union_space(op, tout, sp.basis, rm, cache)
        out[i] = space3.resolvent(f, z)
        n3 = fock.norm2(f) ** 0.5
        # error of the linear solver
        dx = 3 * rtol * ny / abs(d1)
        d3 = tn * dx
        t = (2 * n3 * d3 + d3 * d3) / abs(d2)
        if cut:
            xa = sp.solve(ya, win + 1j * d1 + e) if ya else {}
            fa = cutoff(excited(tout, xa, rm), cut)
            na, n0 = fock.norm2(fa), len(fa)
            fa = {m: v for m, v in fa.items() if abs(v) ** 2 >= cut * na}
            ga = space3.resolvent(fa, z)
            t += 2 * np.max(np.abs(ga - out[i]))
            if len(fa) < n0 and fa:
                t += 10 * krylov.truncation_error(space3.h, fock.vec(fa, space3.index), na**0.5, k, z, ga)
        if n3 > 0:
            err = krylov.method_error(space3.h, fock.vec(f, space3.index), k, z, out[i])
            if not err <= krylov.MAX_ERR:
                return None
            t += krylov.tolerance(err) * np.max(np.abs(out[i]))
        tol[i] = t
    return out, tol


def _union_space(op, tout, masks, rm, cache):
    o = fock.Op(tout)
    start = set()
    for m in masks:
        start.update(o.row(m, rm))
    return fock.space(op, start, rm, cache)


# ---- thermal average
K_B = 8.617333262e-5


def thermal(es, obs, T):
    es = np.asarray(es, dtype=float)
    x = np.exp(-(es - es.min()) / (K_B * T))
    x /= x.sum()
    return np.tensordot(x, np.asarray(obs), axes=(0, 0))
