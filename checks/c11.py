"""C11: the Coulomb operator is the Slater-Condon interaction of the given integrals."""
import contextlib
import io
import math

import numpy as np

from impurityModel.ed import finite
from vm import atomic, fock
from vm.core import W

def integrals(ctx, n):
    style = ctx.int(0, 4)
    if style == 0:
        r = [0.0] * n
        r[ctx.int(0, n - 1)] = ctx.rng.uniform(-3, 9)
    elif style == 1:
        r = [ctx.int(-3, 10) for _ in range(n)]
    else:
        r = [ctx.pick([0, ctx.rng.uniform(-2, 12), ctx.rng.uniform(0, 12), 1e-3]) for _ in range(n)]
    return ctx.pick([tuple, list])(r)


def close_ops(ctx, got, want, msg, **info):
    ctx.close_dict(atomic.canonical(got, 1e-13), atomic.canonical(want, 1e-13), msg, rtol=1e-10, atol=1e-11, **info)


def w_gaunt(ctx):
    for _ in range(20):
        l, lp = ctx.pick([(ctx.int(0, 3), ctx.int(0, 3)), (ctx.int(0, 3), ctx.int(0, 3)), (ctx.int(0, 5), ctx.int(0, 5))])
        m, mp = ctx.int(-l, l), ctx.int(-lp, lp)
        k = ctx.int(0, max(6, l + lp + 1))
        ctx.case("g", l, lp, m, mp, k)
        want = math.sqrt(4 * math.pi / (2 * k + 1)) * atomic.y3(l, m, k, m - mp, lp, mp) if abs(m - mp) <= k else 0.0
        got = finite.gauntC(k, l, m, lp, mp) if ctx.chance(0.5) else finite.gauntC(k, l, m, lp, mp, prec=16)
        ctx.close(got, want, "Gaunt coefficient", rtol=1e-12, atol=1e-13, k=k, l=l, m=m, lp=lp, mp=mp)
        ctx.event("gaunt_coefficients")


def w_elements(ctx):
    top = ctx.pick([3, 3, 3, 4])
    ls = [ctx.int(0, top) for _ in range(4)]
    if top == 4 and ctx.chance(0.5):
        ls = [4] * 4
    r = integrals(ctx, ctx.int(1, 2 * top + 1))
    unit = ctx.pick([1, 1, 1, 1e-8, 1e6])
    r = type(r)(x * unit for x in r)
    ctx.case("u", ls, r)
    keep = repr(r)
    for _ in range(30):
        ms = [ctx.int(-l, l) for l in ls]
        if ctx.chance(0.8):
            ms[3] = ms[0] + ms[1] - ms[2]
            if abs(ms[3]) > ls[3]:
                continue
        lab = [(l, 0, m) for l, m in zip(ls, ms)]
        want = atomic.coulomb_element(lab[0], lab[1], lab[3], lab[2], r)
        got = finite.getU(ls[0], ms[0], ls[1], ms[1], ls[2], ms[2], ls[3], ms[3], r)
        ctx.close(got, want, "Coulomb matrix element", rtol=1e-10, atol=1e-11 * unit, ls=ls, ms=ms, r=r)
        ctx.event("coulomb_elements")
    ctx.check(repr(r) == keep, "the integrals were modified")


def w_shells(ctx):
    """getNoSpinUop and getUop on arbitrary shells."""
    ls = ctx.pick([(ctx.int(0, 2),) * 4, tuple(ctx.int(0, 2) for _ in range(4)), (1, 2, 2, 1), (2, 1, 2, 1), (0, 2, 0, 2), (0, 1, 1, 0)])
    if ctx.chance(0.05):
        ls = (3, 3, 3, 3)
    r = integrals(ctx, ctx.int(1, 2 * max(ls) + 1))
    ctx.case("op", ls, r, sample=dict(ls=ls, R=r))
    want = atomic.coulomb_terms(ls[0], ls[1], ls[3], ls[2], r)
    got = finite.getUop(*ls, r)
    for p in got:
        ctx.check(len(p) == 4 and [t for _, t in p] == ["c", "c", "a", "a"], "not a two-body scattering process", process=p)
    close_ops(ctx, got, want, "Coulomb operator of the shells", ls=ls, r=r)
    nosp = finite.getNoSpinUop(*ls, r)
    full = {}
    for (a, b, c, d), v in nosp.items():
        ctx.check(a[0] == ls[0] and b[0] == ls[1] and c[0] == ls[2] and d[0] == ls[3], "orbitals of another shell", key=(a, b, c, d))
        w = atomic.coulomb_element((a[0], 0, a[1]), (b[0], 0, b[1]), (d[0], 0, d[1]), (c[0], 0, c[1]), r) / 2
        full[(a, b, c, d)] = w
        ctx.close(v, w, "spin-less Coulomb element", rtol=1e-10, atol=1e-11, key=(a, b, c, d))
    n = 0
    for a in range(-ls[0], ls[0] + 1):
        for b in range(-ls[1], ls[1] + 1):
            for c in range(-ls[2], ls[2] + 1):
                d = a + b - c
                if abs(d) <= ls[3]:
                    w = atomic.coulomb_element((ls[0], 0, a), (ls[1], 0, b), (ls[3], 0, d), (ls[2], 0, c), r)
                    if abs(w) > 1e-9:
                        n += 1
                        ctx.check(((ls[0], a), (ls[1], b), (ls[2], c), (ls[3], d)) in nosp, "a scattering process is missing", ms=(a, b, c, d))
    ctx.event("shell_operators")


PD = atomic.shell(1) + atomic.shell(2)
IX = {x: i for i, x in enumerate(PD)}


def racah(f0, f2, f4):
    f2, f4 = f2 / 49, f4 / 441
    return f0 - 49 * f4, f2 - 5 * f4, 35 * f4


def w_slater(ctx):
    Fdd, Fpp, Fpd, Gpd = integrals(ctx, 5), integrals(ctx, 3), integrals(ctx, 3), integrals(ctx, 4)
    if ctx.chance(0.4):
        Fdd = (ctx.rng.uniform(0, 10), 0, ctx.rng.uniform(0, 12), 0, ctx.rng.uniform(0, 9))
        Fpp = ctx.pick([(0.0, 0.0, 0.0), (ctx.rng.uniform(0, 9), 0, ctx.rng.uniform(0, 9))])
        Fpd = (ctx.rng.uniform(0, 10), 0, ctx.rng.uniform(0, 10))
        Gpd = (0.0, ctx.rng.uniform(0, 6), 0, ctx.rng.uniform(0, 4))
    default = ctx.chance(0.1)
    if default:
        Fdd, Fpp, Fpd, Gpd = (9, 0, 8, 0, 6), (20, 0, 8), (10, 0, 8), (0, 3, 0, 2)
        op = finite.get2p3dSlaterCondonUop()
    else:
        keep = repr((Fdd, Fpp, Fpd, Gpd))
        op = finite.get2p3dSlaterCondonUop(Fdd, Fpp, Fpd, Gpd) if ctx.chance(0.5) else finite.get2p3dSlaterCondonUop(Gpd=Gpd, Fpd=Fpd, Fpp=Fpp, Fdd=Fdd)
        ctx.check(repr((Fdd, Fpp, Fpd, Gpd)) == keep, "the integrals were modified")
    info = dict(Fdd=Fdd, Fpp=Fpp, Fpd=Fpd, Gpd=Gpd)
    ctx.case("sc", repr(info), sample=info)
    want = atomic.slater_condon(Fdd, Fpp, Fpd, Gpd)
    # only even k contribute to F, odd k to G; see y3
    close_ops(ctx, op, want, "Slater-Condon operator", **info)
    ctx.event("slater_condon_operators")
    for p in op:
        for x, t in p:
            ctx.check(x in IX, "unknown orbital", orbital=x)
    # conservation of the number of electrons of each shell, and of Lz and Sz
    for p, v in op.items():
        if abs(v) < 1e-10:
            continue
        sg = [1 if t == "c" else -1 for _, t in p]
        for what, val in (("number of d electrons", lambda x: x[0] == 2), ("number of p electrons", lambda x: x[0] == 1),
                          ("Lz", lambda x: x[2]), ("Sz", lambda x: x[1])):
            ctx.check(sum(s * val(x) for s, (x, _) in zip(sg, p)) == 0, what + " is not conserved", process=p)
    # Hermiticity and rotational invariance of the operator of the code, in the complete two-electron space
    f = fock.Op(atomic.relabel(op, IX))
    masks = fock.all_masks(16, 2)
    h = fock.matrix(f, masks)
    sc = max(1.0, np.max(np.abs(h)))
    ctx.check(np.max(np.abs(h - h.conj().T)) <= 1e-10 * sc, "Coulomb operator is not Hermitian", **info)
    for name, mats in (("L", [atomic.l_matrices(1), atomic.l_matrices(2)]), ("S", None)):
        for i in range(3):
            o = {}
            for l in (1, 2):
                m = atomic.full_l(l)[i] if name == "L" else atomic.full_s(l)[i]
                o.update(atomic.op_of_matrix(atomic.shell(l), m))
            j = fock.matrix(atomic.relabel(o, IX), masks)
            ctx.check(np.max(np.abs(h @ j - j @ h)) <= 1e-9 * sc, "Coulomb operator is not rotationally invariant", generator=name + "xyz"[i], **info)
            ctx.event("symmetry_commutators")
    # textbook multiplets
    r = lambda x, k: x[k] if k < len(x) else 0
    dm = fock.mask_of(range(6, 16))
    dd = [m for m in masks if m & dm == m]
    e = np.sort(np.linalg.eigvalsh(fock.matrix(f, dd)))
    A, B, C = racah(r(Fdd, 0), r(Fdd, 2), r(Fdd, 4))
    wd = np.sort([A - 8 * B] * 21 + [A + 7 * B] * 9 + [A + 4 * B + 2 * C] * 9 + [A - 3 * B + 2 * C] * 5 + [A + 14 * B + 7 * C])
    ctx.close(e, wd, "d2 multiplet energies", rtol=1e-9, atol=1e-9, **info)
    pp = [m for m in masks if m & dm == 0]
    e = np.sort(np.linalg.eigvalsh(fock.matrix(f, pp)))
    f0, f2 = r(Fpp, 0), r(Fpp, 2) / 25
    ctx.close(e, np.sort([f0 - 5 * f2] * 9 + [f0 + f2] * 5 + [f0 + 10 * f2]), "p2 multiplet energies", rtol=1e-9, atol=1e-9, **info)
    # Hund's ground state / average energy of d^n: trace gives U_av n(n-1)/2
    n = ctx.int(0, 10)
    mk = [m << 6 for m in fock.all_masks(10, n)]
    row = sum(f.row(m).get(m, 0) for m in mk) / len(mk)
    uav = r(Fdd, 0) - 14 / 441 * (r(Fdd, 2) + r(Fdd, 4))
    ctx.close(row, uav * n * (n - 1) / 2, "average energy of d^n", rtol=1e-9, atol=1e-9, n=n, **info)
    # average p-d repulsion
    mk = [(1 << i) | (1 << j) for i in range(6) for j in range(6, 16)]
    row = sum(f.row(m).get(m, 0) for m in mk) / len(mk)
    ctx.close(row, r(Fpd, 0) - r(Gpd, 1) / 15 - 3 / 70 * r(Gpd, 3), "average p-d repulsion", rtol=1e-9, atol=1e-9, **info)
    ctx.event("multiplets_checked")


def w_print(ctx):
    l, lp = ctx.int(0, 3), ctx.int(0, 3)
    ctx.case("pr", l, lp)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        finite.printGaunt(l, lp)
    rows = [[float(x) for x in s.split()] for s in out.getvalue().splitlines() if s.strip() and "k=" not in s]
    want = []
    for k in range(l + lp + 1):
        for m in range(-l, l + 1):
            want.append([math.sqrt(4 * math.pi / (2 * k + 1)) * atomic.y3(l, m, k, m - mp, lp, mp) if abs(m - mp) <= k else 0.0 for mp in range(-lp, lp + 1)])
    ctx.close(np.array(rows), np.array(want), "printed Gaunt coefficients", rtol=0, atol=0.00501, l=l, lp=lp)


WORKLOADS = [W("gaunt", w_gaunt, 300, 3000), W("elements", w_elements, 300, 3000), W("shells", w_shells, 150, 1500),
             W("slater", w_slater, 120, 1200), W("print", w_print, 8, 60)]
