"""C12: spin-orbit coupling, magnetic field and cubic harmonics."""
import numpy as np

from impurityModel.ed import finite
from vm import atomic, fock
from vm.core import W


def strength(ctx):
    return ctx.pick([0, 0.0, 1, -2, ctx.rng.uniform(-3, 3), ctx.rng.uniform(0, 12), 1e-4, -1e-6, 11.629, np.float64(ctx.rng.uniform(-1, 1)), 1e3])


def w_soc(ctx):
    l = ctx.pick([1, 2, 1, 2, 0, 3, 4])
    xi = strength(ctx)
    ctx.case("soc", l, repr(xi), sample=dict(l=l, xi=xi))
    if l == 2 and ctx.chance(0.5):
        op = finite.getSOCop(xi)
    else:
        op = finite.getSOCop(xi, l) if ctx.chance(0.5) else finite.getSOCop(xi, l=l)
    labels = atomic.shell(l)
    got = atomic.matrix_of_op(op, labels)
    ctx.close(got, atomic.soc_matrix(l, xi), "spin-orbit operator is not xi L.S", rtol=1e-12, atol=1e-13, l=l, xi=xi)
    e = np.linalg.eigvalsh(got)
    want = np.sort([xi * l / 2] * (2 * l + 2) + [-xi * (l + 1) / 2] * (2 * l))
    ctx.close(e, want, "spin-orbit eigenvalues", rtol=1e-9, atol=1e-12, l=l, xi=xi)
    ctx.event("spin_orbit_operators")


def w_field(ctx):
    l = ctx.pick([1, 2, 1, 2, 0, 3])
    h = [strength(ctx) for _ in range(3)]
    ctx.case("field", l, repr(h), sample=dict(l=l, h=h))
    op = finite.gethHfieldop(*h) if l == 2 and ctx.chance(0.5) else finite.gethHfieldop(*h, l=l)
    labels = atomic.shell(l)
    got = atomic.matrix_of_op(op, labels)
    ctx.close(got, atomic.zeeman_matrix(l, h), "field operator is not h.S", rtol=1e-12, atol=1e-13, l=l, h=h)
    ctx.close(got, got.conj().T, "field operator is not Hermitian", rtol=1e-14, atol=1e-15)
    b = float(np.linalg.norm(np.array(h, dtype=float)))
    ctx.close(np.linalg.eigvalsh(got), np.sort([b / 2] * (2 * l + 1) + [-b / 2] * (2 * l + 1)), "Zeeman eigenvalues", rtol=1e-9, atol=1e-12, h=h)
    # the same operator from the spin operators of the code, on many-electron states
    ctx.event("field_operators")


def w_sum(ctx):
    """Both together on a many-electron state: independent additions to one shell do not interfere."""
    l = ctx.pick([1, 2])
    xi, h = strength(ctx), [strength(ctx) for _ in range(3)]
    ctx.case("sum", l, repr((xi, h)))
    op = finite.addOps([finite.getSOCop(xi, l=l), finite.gethHfieldop(*h, l=l), finite.getSOCop(xi, l=3 - l)])
    labels = atomic.shell(1) + atomic.shell(2)
    want = np.zeros((16, 16), dtype=complex)
    sl = {1: slice(0, 6), 2: slice(6, 16)}
    want[sl[l], sl[l]] = atomic.soc_matrix(l, xi) + atomic.zeeman_matrix(l, h)
    want[sl[3 - l], sl[3 - l]] = atomic.soc_matrix(3 - l, xi)
    ctx.close(atomic.matrix_of_op(op, labels), want, "sum of one-body operators", rtol=1e-12, atol=1e-12, l=l, xi=xi, h=h)
    # total energies of a non-interacting shell: sums of one-electron energies
    ctx.event("summed_operators")


def w_cubic(ctx):
    l = ctx.pick([1, 2])
    spin = ctx.chance(0.4)
    form = ctx.int(0, 2)
    ctx.case("cubic", l, spin, form, ctx.index)
    if l == 2 and not spin and form == 0:
        u = finite.get_spherical_2_cubic_matrix()
    elif form == 1:
        u = finite.get_spherical_2_cubic_matrix(spin, l)
    else:
        u = finite.get_spherical_2_cubic_matrix(spinpol=spin, l=l)
    n = 2 * l + 1
    ctx.check(u.shape == ((2 * n, 2 * n) if spin else (n, n)), "shape of the transformation", shape=u.shape)
    ctx.close(u.conj().T @ u, np.eye(len(u)), "transformation is not unitary", rtol=0, atol=1e-12)
    ctx.close(u @ u.conj().T, np.eye(len(u)), "transformation is not unitary", rtol=0, atol=1e-12)
    # the harmonics at random points on the sphere: real, and proportional (by a sign) to the polynomials, in documented order
    th, ph = np.arccos(ctx.np.uniform(-1, 1, 40)), ctx.np.uniform(0, 2 * np.pi, 40)
    x, y, z = np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)
    ys = np.array([atomic.ylm(l, m, th, ph) for m in range(-l, l + 1)])
    if l == 1:
        f = np.sqrt(3 / (4 * np.pi)) * np.array([y, x, z])
    else:
        a = np.sqrt(15 / (4 * np.pi))
        f = np.array([a / np.sqrt(12) * (3 * z * z - 1), a / 2 * (x * x - y * y), a * y * z, a * x * z, a * x * y])
    for s in range(2 if spin else 1):
        if spin:
            ctx.check(np.all(u[s * n:(s + 1) * n, (1 - s) * n:(2 - s) * n] == 0), "the transformation mixes the spins")
        b = u[s * n:(s + 1) * n, s * n:(s + 1) * n]
        got = b.T @ ys
        for j in range(n):
            d = min(np.max(np.abs(got[j] - f[j])), np.max(np.abs(got[j] + f[j])))
            ctx.check(d < 1e-10, "column is not the real cubic harmonic of the documented order", column=j, l=l, spin=s, deviation=d)
            ctx.event("harmonics_checked")
    if spin:
        ctx.close(u[:n, :n], u[n:, n:], "different transformation for the two spins", rtol=0, atol=1e-14)
    # the cubic field is diagonal in this basis
    if l == 2 and not spin:
        d = u.conj().T @ atomic.cubic_field(1.0) @ u
        ctx.close(d, np.diag([0.6, 0.6, -0.4, -0.4, -0.4]), "eg/t2g order of the columns", rtol=0, atol=1e-12)


WORKLOADS = [W("soc", w_soc, 2000, 20000), W("field", w_field, 3000, 30000), W("sum", w_sum, 1000, 10000), W("cubic", w_cubic, 600, 6000)]
