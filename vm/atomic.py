"""
Independent atomic physics: spherical harmonics by quadrature, Coulomb interaction, spin-orbit coupling,
Zeeman term, cubic crystal field, angular momentum operators - as one- and two-body operators on labels (l, s, m).
No code of the repository is used here.
"""
import functools
import math

import numpy as np

from vm import fock


# ---- spherical harmonics (Condon-Shortley phase)
def ylm(l, m, theta, phi):
    """theta: polar, phi: azimuthal angle."""
    a = abs(m)
    norm = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - a) / math.factorial(l + a))
    der = np.polynomial.legendre.Legendre.basis(l).deriv(a) if a else np.polynomial.legendre.Legendre.basis(l)
    y = norm * (-np.sin(theta)) ** a * der(np.cos(theta)) * np.exp(1j * a * phi)  # accurate close to the axis
    return y if m >= 0 else (-1) ** a * np.conj(y)


@functools.lru_cache(None)
def sphere(n=16):
    x, w = np.polynomial.legendre.leggauss(n)
    nphi = 2 * n
    phi = 2 * math.pi * np.arange(nphi) / nphi
    th, ph = np.meshgrid(np.arccos(x), phi, indexing="ij")
    ww = np.repeat(w[:, None], nphi, axis=1) * 2 * math.pi / nphi
    return th, ph, ww


@functools.lru_cache(None)
def y_grid(l, m):
    th, ph, _ = sphere()
    return ylm(l, m, th, ph)


@functools.lru_cache(None)
def y3(l1, m1, k, q, l2, m2):
    """Integral of conj(Y_l1m1) Y_kq Y_l2m2 over the sphere."""
    if m1 != q + m2 or not (abs(l1 - l2) <= k <= l1 + l2) or (l1 + l2 + k) % 2:
        return 0.0
    return float(np.sum(np.conj(y_grid(l1, m1)) * y_grid(k, q) * y_grid(l2, m2) * sphere()[2]).real)


# ---- Coulomb interaction
def coulomb_element(a, b, c, d, rk):
    """<ab|1/r12|cd> of labels (l, s, m) with radial integrals rk[k]."""
    if a[1] != c[1] or b[1] != d[1]:
        return 0.0
    q = a[2] - c[2]
    if d[2] - b[2] != q:
        return 0.0
    out = 0.0
    for k, r in enumerate(rk):
        if r and abs(q) <= k:
            # sum_q 4pi/(2k+1) Y_kq(1) conj(Y_kq(2));  conj(Y_kq) = (-1)^q Y_k-q
            out += r * 4 * math.pi / (2 * k + 1) * y3(a[0], a[2], k, q, c[0], c[2]) * (-1) ** q * y3(b[0], b[2], k, -q, d[0], d[2])
    return out


def shell(l):
    return [(l, s, m) for s in (0, 1) for m in range(-l, l + 1)]


def coulomb_terms(la, lb, lc, ld, rk):
    """1/2 sum <ab|V|cd> a+_a a+_b a_d a_c over the shells."""
    out = {}
    for a in shell(la):
        for b in shell(lb):
            if a == b:
                continue
            for c in shell(lc):
                if c[1] != a[1]:
                    continue
                for d in shell(ld):
                    if c == d:
                        continue
                    v = coulomb_element(a, b, c, d, rk)
                    if abs(v) > 1e-14:
                        p = ((a, "c"), (b, "c"), (d, "a"), (c, "a"))
                        out[p] = out.get(p, 0) + v / 2
    return out


def slater_condon(Fdd, Fpp, Fpd, Gpd):
    return fock.add_ops(coulomb_terms(2, 2, 2, 2, Fdd), coulomb_terms(1, 1, 1, 1, Fpp),
                        coulomb_terms(1, 2, 1, 2, Fpd), coulomb_terms(2, 1, 2, 1, Fpd),
                        coulomb_terms(1, 2, 2, 1, Gpd), coulomb_terms(2, 1, 1, 2, Gpd))


# ---- one-body matrices on the ordered labels of a shell
def l_matrices(l):
    """Lx, Ly, Lz on m = -l..l."""
    m = np.arange(-l, l + 1)
    lz = np.diag(m).astype(complex)
    lp = np.zeros((2 * l + 1, 2 * l + 1), dtype=complex)
    for i in range(2 * l):
        lp[i + 1, i] = math.sqrt(l * (l + 1) - m[i] * (m[i] + 1))
    lx, ly = (lp + lp.conj().T) / 2, (lp - lp.conj().T) / 2j
    return lx, ly, lz


def s_matrices():
    """Sx, Sy, Sz on (down, up)."""
    sx = np.array([[0, 1], [1, 0]], dtype=complex) / 2
    # S+ |down> = |up>
    sp = np.array([[0, 0], [1, 0]], dtype=complex)
    sy = (sp - sp.T) / 2j
    sz = np.diag([-0.5, 0.5]).astype(complex)
    return sx, sy, sz


def full_l(l):
    return [np.kron(np.eye(2), x) for x in l_matrices(l)]


def full_s(l):
    return [np.kron(x, np.eye(2 * l + 1)) for x in s_matrices()]


def soc_matrix(l, xi):
    return xi * sum(a @ b for a, b in zip(full_l(l), full_s(l)))


def zeeman_matrix(l, h):
    return sum(x * s for x, s in zip(h, full_s(l)))


def op_of_matrix(labels, mat, tol=1e-14):
    return {((a, "c"), (b, "a")): complex(mat[i, j]) for i, a in enumerate(labels) for j, b in enumerate(labels) if abs(mat[i, j]) > tol}


def matrix_of_op(op, labels):
    """Matrix of a one-body operator given in dict form; anything else is an error."""
    idx = {x: i for i, x in enumerate(labels)}
    m = np.zeros((len(labels), len(labels)), dtype=complex)
    for p, v in op.items():
        assert len(p) == 2 and p[0][1] == "c" and p[1][1] == "a", "not a one-body operator: %r" % (p,)
        m[idx[p[0][0]], idx[p[1][0]]] += v
    return m


# ---- real (cubic) harmonics as polynomials of the unit vector
def _norm(f):
    th, ph, w = sphere()
    return f / np.sqrt(np.sum(np.abs(f) ** 2 * w))


@functools.lru_cache(None)
def cubic_matrix(l):
    """Columns: y, x, z (p) and z2, x2-y2, yz, xz, xy (d) in spherical harmonics m = -l..l."""
    th, ph, w = sphere()
    x, y, z = np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)
    fs = [y, x, z] if l == 1 else [3 * z * z - 1, x * x - y * y, y * z, x * z, x * y]
    u = np.zeros((2 * l + 1, 2 * l + 1), dtype=complex)
    for j, f in enumerate(fs):
        f = _norm(f + 0 * x)
        for i, m in enumerate(range(-l, l + 1)):
            u[i, j] = np.sum(np.conj(y_grid(l, m)) * f * w)
    u[np.abs(u) < 1e-12] = 0
    return u


def cubic_field(tenDq):
    """Spherical-basis matrix (5x5) of a cubic crystal field, eg at +0.6, t2g at -0.4."""
    u = cubic_matrix(2)
    return u @ np.diag([0.6 * tenDq] * 2 + [-0.4 * tenDq] * 3) @ u.conj().T


def relabel(op, index):
    return {tuple((index[x], a) for x, a in p): v for p, v in op.items()}


# ---- normal ordering: a unique form of any operator
def canonical(op, tol=1e-12):
    """{(creators ascending, annihilators ascending): coefficient} meaning c+_{i1} c+_{i2} .. a_{j1} a_{j2} .."""
    out = {}
    for p, v in op.items():
        todo = [(list(p), v)]
        while todo:
            q, x = todo.pop()
            for i in range(len(q) - 1):
                (a, ta), (b, tb) = q[i], q[i + 1]
                if ta == "a" and tb == "c":
                    if a == b:
                        todo.append((q[:i] + q[i + 2:], x))
                    todo.append((q[:i] + [q[i + 1], q[i]] + q[i + 2:], -x))
                    break
                if ta == tb:
                    if a == b:
                        break
                    if a > b:
                        todo.append((q[:i] + [q[i + 1], q[i]] + q[i + 2:], -x))
                        break
            else:
                key = (tuple(i for i, t in q if t == "c"), tuple(i for i, t in q if t == "a"))
                out[key] = out.get(key, 0) + x
    return {k: v for k, v in out.items() if abs(v) > tol}


# ---- ready-made systems
def d_shell(ctx, degenerate=True):
    """Random atomic d shell in index form: orbital index s*5 + (m+2)."""
    labels = shell(2)
    ix = {x: i for i, x in enumerate(labels)}
    f0, f2, f4 = ctx.pick([0, ctx.rng.uniform(0, 8)]), ctx.rng.uniform(2, 10), ctx.rng.uniform(1, 7)
    op = coulomb_terms(2, 2, 2, 2, (f0, 0, f2, 0, f4)) if ctx.chance(0.8) else {}
    mat = np.zeros((10, 10), dtype=complex)
    style = ctx.int(0, 7)
    if style & 1:
        mat = mat + np.kron(np.eye(2), cubic_field(ctx.rng.uniform(-1, 2)))
    if style & 2:
        mat = mat + soc_matrix(2, ctx.rng.uniform(0.02, 0.3))
    if style & 4 and ctx.chance(0.5):
        mat = mat + zeeman_matrix(2, [ctx.pick([0, 0, ctx.rng.uniform(-0.2, 0.2)]) for _ in range(3)])
    mat = (mat + mat.conj().T) / 2
    op = fock.add_ops(op, op_of_matrix(labels, mat))
    if not op:
        op = op_of_matrix(labels, np.diag([0.5] * 10).astype(complex))
    # exactly Hermitian
    out = {}
    for p, v in op.items():
        q = next(iter(fock.dagger({p: 1})))
        out[p] = (complex(v) + np.conj(complex(op.get(q, v)))) / 2
    if all(abs(v.imag) < 1e-15 for v in out.values()):
        out = {p: v.real for p, v in out.items()}
    return 10, relabel(out, ix)


def symmetrised(op):
    """Exactly Hermitian version of an operator that is Hermitian up to rounding; real coefficients if possible."""
    out = {}
    for p, v in op.items():
        q = next(iter(fock.dagger({p: 1})))
        out[p] = (complex(v) + np.conj(complex(op.get(q, v)))) / 2
    if all(abs(v.imag) < 1e-15 for v in out.values()):
        out = {p: v.real for p, v in out.items()}
    return out
