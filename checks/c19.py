"""C19: transition operators are the stated one-body matrix elements."""
from collections import OrderedDict

import numpy as np

from impurityModel.ed import spectra
from vm import atomic, fock, gen, spec
from vm.core import W


def layout(ctx, l1, l2):
    nb = OrderedDict([(l1, ctx.pick([0, 0, 1, 3, 10])), (l2, ctx.pick([0, 1, 2, 10, 20, 48]))])
    ix = {x: i for i, x in enumerate(gen.labels(nb))}
    return nb, ix


def vector(ctx, complex_ok=True):
    r = ctx.rng.random()
    if r < 0.25:
        v = [0, 0, 0]
        v[ctx.int(0, 2)] = ctx.pick([1, -1, 2, 0.5])
    elif r < 0.4:
        v = [ctx.pick([-1, 0, 1]) for _ in range(3)]
    elif r < 0.7 or not complex_ok:
        v = [ctx.rng.uniform(-2, 2) for _ in range(3)]
    else:
        v = [complex(ctx.rng.uniform(-1, 1), ctx.rng.uniform(-1, 1)) for _ in range(3)]
    if r > 0.92:
        v = [x * ctx.pick([1e-3, 1e3, 1e-9, 1e6]) for x in v]
    elif r > 0.85:
        v[ctx.int(0, 2)] *= 1e-9
    return ctx.pick([v, tuple(v), np.array(v)])


def w_dipole(ctx):
    l1, l2 = ctx.pick([(1, 2), (1, 2), (1, 2), (2, 1), (0, 1), (1, 0), (2, 3), (3, 2), (1, 3), (0, 2), (3, 4), (4, 3)])
    nb, ix = layout(ctx, l1, l2)
    ns = [vector(ctx) for _ in range(ctx.int(1, 4))]
    ctx.case(list(nb.items()), repr(ns), sample=dict(layout=dict(nb), polarisations=repr(ns)))
    keep = repr(ns), list(nb.items())
    ops = spectra.getDipoleOperators(nb, ns)
    dag = spectra.getDaggeredDipoleOperators(nb, ns)
    ctx.check(len(ops) == len(ns) and len(dag) == len(ns), "one operator per polarisation")
    for n, o, d in zip(ns, ops, dag):
        want = spec.dipole(ix, l1, l2, n, 0)
        ctx.close_dict(o, want, "dipole operator differs from the matrix elements of n.r", rtol=1e-10, atol=1e-13 + 1e-12 * float(np.max(np.abs(n))), layout=dict(nb), n=n)
        ctx.close_dict(spectra.getDipoleOperator(nb, n), o, "list and single dipole operators differ", rtol=1e-14, atol=0)
        dd = fock.dagger(o)
        ctx.check(set(d) == set(dd) and all(d[k] == dd[k] for k in dd), "daggered dipole operator is not the adjoint", got=d, want=dd)
        ctx.event("dipole_operators")
        if any(isinstance(x, complex) for x in n):
            ctx.event("complex_polarisations")
    a, b = ctx.coef(), ctx.coef()
    n1, n2 = np.array(ns[0]), np.array(ns[-1])
    s = {}
    for c, n in ((a, n1), (b, n2)):
        for k, v in spectra.getDipoleOperator(nb, n).items():
            s[k] = s.get(k, 0) + c * v
    ctx.close_dict(spectra.getDipoleOperator(nb, a * n1 + b * n2), s, "dipole operator is not linear in the polarisation", rtol=1e-10, atol=1e-12)
    ctx.check(keep == (repr(ns), list(nb.items())), "arguments were modified")


def radial_mesh(ctx):
    k = ctx.pick([2, 5, 30, 80, 200])
    r = np.linspace(ctx.pick([0.0, 0.01]), ctx.rng.uniform(2, 8), k)
    if ctx.chance(0.4):  # logarithmic-like mesh
        r = np.exp(np.linspace(-6, np.log(ctx.rng.uniform(2, 8)), k))
    f = lambda: r ** ctx.int(0, 3) * np.exp(-ctx.rng.uniform(0.5, 3) * r) * ctx.rng.uniform(0.5, 4)
    Ri = f()
    Rj = Ri if ctx.chance(0.5) else f()
    if ctx.chance(0.1):
        Ri = Ri * np.exp(1j * ctx.rng.uniform(0, 3))
    return r, Ri, Rj


def w_nixs(ctx):
    li, lj = ctx.pick([(2, 2), (2, 2), (2, 1), (1, 2), (1, 1), (3, 3), (2, 0), (0, 2), (3, 1), (0, 0), (2, 3), (1, 3), (0, 3), (3, 0), (1, 4), (4, 2), (0, 4)])
    ls = [li] if li == lj else [li, lj]
    if ctx.chance(0.5) or len(ls) == 1 and ctx.chance(0.7):
        ls += ctx.rng.sample([x for x in range(4) if x not in ls], 1)
    ctx.rng.shuffle(ls)
    nb = OrderedDict((l, ctx.pick([0, 1, 5, 20])) for l in ls)
    ix = {x: i for i, x in enumerate(gen.labels(nb))}
    r, Ri, Rj = radial_mesh(ctx)
    qs = []
    for _ in range(ctx.int(1, 3)):
        q = np.array([float(x) for x in vector(ctx, False)])
        if np.linalg.norm(q) > 0:
            q = q / np.linalg.norm(q) * ctx.pick([1e-3, 0.5, 2.0, 7.0, 15.0, ctx.rng.uniform(0.1, 10)])
        qs.append(ctx.pick([list(q), q, tuple(q)]))
    if ctx.chance(0.1):
        qs[0] = [0, 0, 0]
    kmin = ctx.pick([None, None, None, 0, 0, 1, 2, 3, 9])
    ctx.case(list(nb.items()), li, lj, repr(qs), r.tobytes(), Ri.tobytes(), Rj.tobytes(), kmin, sample=dict(layout=dict(nb), li=li, lj=lj, qs=repr(qs), mesh=len(r), kmin=kmin))
    keep = [x.copy() for x in (r, Ri, Rj)], repr(qs)
    args = [nb, qs, li, lj, Ri, Rj, r]
    ops = spectra.getNIXSOperators(*args) if kmin is None else spectra.getNIXSOperators(*args, kmin)
    ctx.check(len(ops) == len(qs), "one operator per momentum transfer")
    for q, o in zip(qs, ops):
        want = spec.nixs(ix, q, li, lj, Ri, Rj, r, 1 if kmin is None else kmin)
        # very close to the axis the polar angle is an ill-conditioned function of the cosine
        near = 0 < np.hypot(q[0], q[1]) < 1e-6 * abs(q[2])
        axis = 1e-7 * max([abs(x) for x in want.values()], default=0.0) if near else 0.0
        ctx.close_dict(o, want, "scattering operator differs from the matrix elements of exp(i q.r)", rtol=1e-9, atol=1e-13 + axis, layout=dict(nb), li=li, lj=lj, q=q, kmin=kmin)
        one = spectra.getNIXSOperator(nb, q, li, lj, Ri, Rj, r, *([] if kmin is None else [kmin]))
        ctx.close_dict(one, o, "list and single scattering operators differ", rtol=1e-14, atol=0)
        ctx.event("scattering_operators")
        if kmin == 0:
            ctx.event("with_monopole")
        if li == lj and np.array_equal(Ri, Rj) and not np.iscomplexobj(Ri):  # exp(iqr)^+ = exp(-iqr)
            minus = spectra.getNIXSOperator(nb, [-x for x in q], li, lj, Ri, Rj, r, *([] if kmin is None else [kmin]))
            ctx.close_dict(fock.dagger(o), minus, "T(q)^+ differs from T(-q)", rtol=1e-9, atol=1e-13 + axis)
            ctx.event("adjoint_relations")
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep[0], (r, Ri, Rj))) and keep[1] == repr(qs), "arguments were modified")


def w_direct(ctx):
    """The matrix elements by direct quadrature of exp(iq.r) over directions (fine angular grid), summed over the given mesh."""
    li, lj = ctx.pick([(2, 2), (2, 1), (1, 1)])
    nb = OrderedDict((l, 0) for l in sorted({li, lj, 1}))
    ix = {x: i for i, x in enumerate(gen.labels(nb))}
    r = np.linspace(0.0, 3.0, 25)
    Ri = r**li * np.exp(-1.3 * r)
    Rj = r**lj * np.exp(-0.9 * r)
    q = np.array([float(x) for x in vector(ctx, False)])
    nq = np.linalg.norm(q)
    if nq == 0 or not np.isfinite(nq):
        q, nq = np.array([0.0, 0.0, 1.0]), 1.0
    q = q / nq * ctx.rng.uniform(0.3, 3)
    ctx.case("direct", li, lj, repr(q), sample=dict(li=li, lj=lj, q=q.tolist()))
    got = spectra.getNIXSOperator(nb, q, li, lj, Ri, Rj, r, 0)
    x, wx = np.polynomial.legendre.leggauss(30)
    ph = np.arange(40) * 2 * np.pi / 40
    th, PH = np.meshgrid(np.arccos(x), ph, indexing="ij")
    wt = np.outer(wx, np.full(40, 2 * np.pi / 40))
    qr = q[0] * np.sin(th) * np.cos(PH) + q[1] * np.sin(th) * np.sin(PH) + q[2] * np.cos(th)
    want = {}
    wr = np.full(len(r), r[1] - r[0])
    wr[0] = wr[-1] = wr[0] / 2
    for mi in range(-li, li + 1):
        for mj in range(-lj, lj + 1):
            ang = np.conj(atomic.ylm(li, mi, th, PH)) * atomic.ylm(lj, mj, th, PH) * wt
            v = sum(wr[k] * r[k] ** 2 * Ri[k] * Rj[k] * np.sum(ang * np.exp(1j * r[k] * qr)) for k in range(len(r))) / np.sqrt(4 * np.pi)
            if abs(v) > 1e-10:
                for s in (0, 1):
                    want[((ix[(li, s, mi)], "c"), (ix[(lj, s, mj)], "a"))] = v
    ctx.close_dict(got, want, "scattering operator differs from the direct integral of exp(i q.r)", rtol=1e-7, atol=1e-9, q=q, li=li, lj=lj)
    ctx.event("direct_integrals")


def w_photo(ctx):
    ls = ctx.rng.sample(range(4), ctx.int(1, 3))
    nb = OrderedDict((l, ctx.pick([0, 1, 7, 20])) for l in ls)
    ix = {x: i for i, x in enumerate(gen.labels(nb))}
    l = ctx.pick(ls)
    ctx.case(list(nb.items()), l)
    for fn, act in ((spectra.getPhotoEmissionOperators, "a"), (spectra.getInversePhotoEmissionOperators, "c")):
        got = fn(nb, l) if ctx.chance(0.5) else fn(nb, l=l)
        want = spec.photo(ix, l, act)
        ctx.check(len(got) == len(want), "number of photoemission operators", l=l, layout=dict(nb))
        for k, (g, w) in enumerate(zip(got, want)):
            ctx.check({p: v for p, v in g.items() if v != 0} == w, "(inverse) photoemission operator", position=k, got=g, want=w, layout=dict(nb), l=l)
            ctx.event("photoemission_operators")
        if l == 2 and ctx.chance(0.5):
            ctx.check([dict(g) for g in fn(nb)] == want, "the default shell is not the d shell")
        got[0].clear()
        ctx.check([dict(g) for g in fn(nb, l)] == want, "operators share state between calls")


WORKLOADS = [W("dipole", w_dipole, 1500, 20000), W("nixs", w_nixs, 1000, 15000), W("direct", w_direct, 60, 600), W("photo", w_photo, 600, 4000)]
