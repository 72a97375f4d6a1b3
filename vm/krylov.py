"""Oracle-side plain Lanczos (three-term recursion, no reorthogonalisation).

A Krylov space built without reorthogonalisation converges to the resolvent at the rate of this recursion.
The accuracy that the method itself can reach for a case is measured with it, and the comparison with the
exact resolvent is made within (a multiple of) that accuracy.
"""
import numpy as np

from vm import fock


def recursion(h, y, k, nrm=None):
    a, b = [], []
    nrm = np.linalg.norm(y) if nrm is None else nrm
    v = y / nrm
    w = h @ v
    a.append(np.vdot(v, w).real)
    w = w - a[0] * v
    scale = max(1.0, np.max(np.abs(h)) if h.size else 1.0)
    for j in range(1, k):
        beta = np.linalg.norm(w)
        if beta < 1e-30 * scale:
            break
        b.append(beta)
        v_old, v = v, w / beta
        w = h @ v - beta * v_old
        a.append(np.vdot(v, w).real)
        w = w - a[-1] * v
    return nrm**2, np.array(a), np.array(b)


def green_ab(n2, a, b, z):
    g = 0.0
    for i in range(len(a) - 1, -1, -1):
        g = 1.0 / (z - a[i] - (b[i] ** 2 * g if i < len(b) else 0.0))
    return n2 * g


def method_error(h, y, k, z, g):
    """
    Relative error of the recursion for several orders of the basis (the rounding errors differ).
    Where the number of iterations is just about sufficient, the error depends on the rounding errors entirely;
    fewer iterations are assumed, such that these cases count as not converged.
    """
    err = 0.0
    n = len(y)
    if n > 7:
        k = max(1, min(k - 2, int(0.85 * k)))
    for i in range(3):
        q = np.arange(n) if i == 0 else np.random.default_rng(i).permutation(n)
        n2, a, b = recursion(h[np.ix_(q, q)] if i else h, y[q], k)
        with np.errstate(all="ignore"):
            e = np.max(np.abs(green_ab(n2, a, b, z) - g)) / max(1e-300, np.max(np.abs(g)))
        err = max(err, float(e) if np.isfinite(e) else np.inf)
        if err < 1e-9:
            break
    return err


def truncation_error(h, y, norm, k, z, g):
    """
    Absolute error of the recursion if it starts from y / norm, where product states of small weight have been
    removed from y after it was normalised. The start vector is then not exactly normalised, and the recursion
    amplifies this by more than the change of the resolvent itself.
    """
    with np.errstate(all="ignore"):
        e = max(np.max(np.abs(green_ab(*recursion(h, y, q, norm), z) - g)) for q in (k, max(1, int(0.85 * k))))
    return float(e) if np.isfinite(e) else np.inf


def green_and_tolerance(op, psi, z, k, restr=None, cache=None):
    """Exact resolvent, its space, and the relative accuracy of a Krylov space of size k."""
    psi = {m: v for m, v in psi.items() if v != 0}
    sp = fock.space(op, psi, restr, cache)
    z = np.asarray(z)
    g = sp.resolvent(psi, z)
    err = method_error(sp.h, fock.vec(psi, sp.index), k, z, g)
    return g, sp, float(err)


MAX_ERR = 1e-3  # cases for which the method itself is less accurate are not compared


def tolerance(err):
    return 1e-6 + 40 * err
