"""C16: the Green's function equals the exact resolvent element."""
import numpy as np
import scipy.sparse

from impurityModel.ed import finite, spectra
from vm import atomic, fock, gen, krylov, mpi
from vm.core import Skip, W

MODES = [("sparse", "serial"), ("sparse", "H_build"), ("dense", "serial"), ("dense", "H_build"), ("dict", "serial")]


def system(ctx, nmax=8):
    """(n, op, restrictions, start masks of one electron number)."""
    style = ctx.pick(["dense", "dense", "dense", "wide", "chain", "decoupled"])
    kind = ctx.pick([None, "float", "complex"])
    if style == "dense":
        n = ctx.int(2, nmax)
        op = gen.hermitian(ctx, n, ctx.int(1, 10), ctx.int(0, 8), kind=kind, diag=ctx.chance(0.8))
    elif style == "wide":  # many orbitals, few of them active
        n = ctx.size(10, 300, 60)
        orbs = ctx.rng.sample(range(n), ctx.int(2, 6))
        op = gen.hermitian(ctx, n, ctx.int(1, 8), ctx.int(0, 5), orbs, kind, diag=True)
    elif style == "chain":
        n = ctx.int(3, 14)
        op = {}
        t = ctx.rng.uniform(0.2, 2)
        for i in range(n - 1):
            op[((i, "c"), (i + 1, "a"))] = t
            op[((i + 1, "c"), (i, "a"))] = t
        for i in range(n):
            op[((i, "c"), (i, "a"))] = ctx.rng.uniform(-1, 1)
    else:
        n = ctx.int(4, 9)
        k = n // 2
        op = gen.hermitian(ctx, n, ctx.int(1, 5), ctx.int(0, 3), list(range(k)), kind)
        for i in range(k, n):
            op[((i, "c"), (i, "a"))] = ctx.rng.uniform(-2, 2)
    shift = ctx.pick([0, 0, 0, -50.0, 20.0])
    nel = ctx.int(1, 3) if style == "chain" else ctx.int(0, n) if style != "wide" else ctx.int(1, n - 1)
    if shift:
        for i in range(n) if style != "wide" else orbs:
            p = ((i, "c"), (i, "a"))
            op[p] = op.get(p, 0) + shift
    masks = [gen.mask(ctx, n, nel) for _ in range(ctx.int(1, 5))]
    if style == "wide":
        base = gen.mask(ctx, n, ctx.int(0, n)) & ~fock.mask_of(orbs)
        k = ctx.int(0, len(orbs))
        masks = [base | fock.mask_of(ctx.rng.sample(orbs, k)) for _ in range(ctx.int(1, 5))]
    restr = None
    if ctx.chance(0.4):
        restr = gen.restrictions(ctx, n, masks, ctx.pick([1, 1, 2, 3]))
        masks = [m for m in masks if fock.allowed(m, fock.restr_masks(restr))]
        if not masks:
            raise Skip()
    return n, op, restr, masks, style


def mesh(ctx, sp, e, p):
    """Frequencies around (and far from) the poles."""
    k = ctx.pick([1, 2, 7, 25, 60])
    lo, hi = (sp.w[0] - e, sp.w[-1] - e) if len(sp.w) else (-1, 1)
    om = ctx.np.uniform(lo - 2, hi + 2, k)
    r = ctx.rng.random()
    if r < 0.4:
        om = np.sort(om)
    elif r < 0.5:
        om[0] = 1e4
    elif r < 0.7:
        om[: k // 2 + 1] = ctx.np.choice(sp.w - e, k // 2 + 1)
    return om


def start_state(ctx, n, op, restr, masks):
    rm = fock.restr_masks(restr)
    psi = gen.normalised({m: ctx.coef(lo=0.1) for m in masks})
    sp = fock.space(op, psi, rm)
    if len(sp.basis) > 400:
        raise Skip()
    r = ctx.rng.random()
    kind = "given"
    if r < 0.15:  # an eigenstate
        v = sp.v[:, ctx.int(0, len(sp.w) - 1)]
        psi = gen.normalised({m: v[i] for i, m in enumerate(sp.basis) if abs(v[i]) > 1e-9})
        kind = "eigenstate"
    elif r < 0.3:  # few eigenstates
        c = ctx.np.normal(size=len(sp.w)) * (ctx.np.random(len(sp.w)) < 0.3)
        v = sp.v @ c
        if np.linalg.norm(v) > 1e-6:
            v /= np.linalg.norm(v)
            psi = gen.normalised({m: v[i] for i, m in enumerate(sp.basis) if abs(v[i]) > 1e-9})
            kind = "few eigenstates"
    elif r < 0.5:
        psi = gen.normalised({m: ctx.coef("complex", lo=0.1) for m in ctx.rng.sample(list(sp.basis), ctx.int(1, len(sp.basis)))})
        kind = "many"
    return psi, sp, kind


def w_green(ctx):
    n, op, restr, masks, style = system(ctx)
    rm = fock.restr_masks(restr)
    psi, sp, kind = start_state(ctx, n, op, restr, masks)
    e = ctx.pick([0, ctx.rng.uniform(-3, 3), float(sp.w[0]), int(round(sp.w[-1]))])
    delta = ctx.pick([1, -1]) * ctx.pick([0.05, 0.1, 0.2, 0.5, 2.0, ctx.rng.uniform(0.1, 1)])
    om = mesh(ctx, sp, e, psi)
    k = ctx.pick([150, 150, 400, len(sp.basis), len(sp.basis) + 1, len(sp.basis) + 20])
    mode, par = ctx.pick(MODES)
    if mode == "dict":
        k = min(k, 2 * len(sp.basis) + 10)
    cut = ctx.pick([1e-12, 1e-14, 0])
    g, _, err = krylov.green_and_tolerance(op, psi, om + 1j * delta + e, k, rm, [sp])
    if err > krylov.MAX_ERR:
        raise Skip()
    ctx.case(n, sorted(op.items(), key=repr), sorted(psi.items()), repr(restr), mode, par, k, delta,
             sample=dict(n=n, style=style, start=kind, dim=len(sp.basis), krylov=k, mode=mode, par=par, delta=delta, frequencies=len(om)))
    bpsi = fock.psi_to_bytes(psi, n)
    keep = dict(op), dict(bpsi), om.copy(), repr(restr)
    store = ctx.pick(["none", "empty", "filled", "filled"])
    h = None if store == "none" else {}
    if store == "filled":
        other = {m: 1.0 for m in ctx.rng.sample(list(sp.basis), ctx.int(1, len(sp.basis)))}
        if ctx.chance(0.5):
            finite.applyOp(n, op, fock.psi_to_bytes(other, n), 1e-12, restr, h)
        else:
            finite.expand_basis(n, h, op, tuple(fock.psi_to_bytes(other, n)), restr)
    args = [n, e, bpsi, op, om, delta, k, cut]
    if mode == "sparse" and par == "serial" and ctx.chance(0.3):
        got = spectra.getGreen(*args, restr, h)
    elif store == "none" and restr is None and ctx.chance(0.5):
        got = spectra.getGreen(*args, mode=mode, parallelization_mode=par)
    else:
        got = spectra.getGreen(*args, restr, h, mode=mode, parallelization_mode=par)
    info = dict(mode=mode, par=par, krylov=k, dim=len(sp.basis), style=style, start=kind, store=store, n=n, op=op, psi=psi, restr=restr, delta=delta, e=e)
    rtol = krylov.tolerance(err)
    if mode == "dict":  # this mode drops small amplitudes in every step
        rtol += 100 * (cut * len(sp.basis)) ** 0.5
    ctx.close(got, g, "Green's function differs from the resolvent", rtol=rtol, atol=1e-12, **info)
    ctx.check(keep == (dict(op), dict(bpsi), keep[2], repr(restr)) and np.array_equal(om, keep[2]), "arguments were modified")
    ctx.event("greens_functions")
    ctx.event("mode_%s_%s" % (mode, par))
    if delta < 0:
        ctx.event("negative_delta")
    if "eigenstate" in kind:
        ctx.event("exhausted_krylov_spaces")
    if restr is not None and len(fock.closure(op, psi, None, limit=3000)[0]) > len(sp.basis):
        ctx.event("restrictions_active")


def lanczos_exact(h, y, k):
    """Krylov space with full reorthogonalisation: (alpha, beta)."""
    v = [y / np.linalg.norm(y)]
    a, b = [], []
    for j in range(k):
        w = h @ v[j]
        a.append(np.vdot(v[j], w).real)
        for _ in range(2):
            for x in v:
                w = w - x * np.vdot(x, w)
        nb = np.linalg.norm(w)
        if nb < 1e-10 * max(1.0, np.max(np.abs(h))) or j == k - 1:
            break
        b.append(nb)
        v.append(w / nb)
    return np.array(a), np.array(b)


def w_small(ctx):
    """Krylov space smaller than the space: the first 2k-1 moments, i.e. the Gauss quadrature, are exact."""
    n, op, restr, masks, style = system(ctx)
    rm = fock.restr_masks(restr)
    psi, sp, kind = start_state(ctx, n, op, restr, masks)
    if len(sp.basis) < 2:
        raise Skip()
    k = ctx.int(1, min(7, len(sp.basis)))
    y = fock.vec(psi, sp.index)
    a, b = lanczos_exact(sp.h, y, k)
    if len(b) and np.min(b) < 1e-3:
        raise Skip()
    e, delta = ctx.rng.uniform(-2, 2), ctx.pick([1, -1]) * ctx.pick([0.1, 0.3, 1.0])
    om = mesh(ctx, sp, e, psi)
    mode, par = ctx.pick(MODES)
    ctx.case("small", n, sorted(op.items(), key=repr), sorted(psi.items()), k, mode, par, sample=dict(n=n, style=style, dim=len(sp.basis), krylov=k, mode=mode))
    got = spectra.getGreen(n, e, fock.psi_to_bytes(psi, n), op, om, delta, k, 1e-14, restr, {}, mode=mode, parallelization_mode=par)
    want = krylov.green_ab(1.0, a, b, om + 1j * delta + e)
    ctx.close(got, want, "truncated Krylov space: moments are not exact", rtol=1e-6, atol=1e-12, krylov=k, dim=len(sp.basis), mode=mode, par=par, op=op, psi=psi, restr=restr)
    ctx.event("truncated_krylov_spaces")
    # tridiagonal elements of the library function
    h = scipy.sparse.csr_matrix(sp.h)
    al, be = finite.get_tridiagonal_krylov_vectors(h, y.copy(), k, ctx.chance(0.5), ctx.pick(["sparse", "dense"]))
    kk = len(a)
    tm = np.diag(np.asarray(al)[:kk]) + np.diag(np.asarray(be)[: kk - 1], 1) + np.diag(np.asarray(be)[: kk - 1], -1)
    x = np.zeros(kk)
    x[0] = 1
    mom, scale = y.copy(), max(1.0, np.max(np.abs(sp.w)))
    for j in range(2 * kk):  # moments 0 .. 2k-1
        ctx.close((x @ np.linalg.matrix_power(tm, j))[0] / scale**j, np.vdot(y, mom).real / scale**j, "moment of the tridiagonal matrix", rtol=1e-8, atol=1e-8, j=j, k=k)
        mom = sp.h @ mom
        ctx.event("moments_checked")


def w_empty(ctx):
    n = ctx.int(1, 20)
    op = gen.hermitian(ctx, n, 3, 0)
    om = ctx.np.uniform(-3, 3, ctx.int(1, 30))
    mode, par = ctx.pick(MODES)
    ctx.case("empty", n, om.tobytes(), mode, par)
    got = spectra.getGreen(n, ctx.rng.uniform(-2, 2), {}, op, om, ctx.pick([0.1, -0.1]), 150, 1e-12, ctx.pick([None, {frozenset([0]): (0, 1)}]), ctx.pick([None, {}]), mode=mode, parallelization_mode=par)
    ctx.check(np.shape(got) == om.shape and np.all(np.asarray(got) == 0), "Green's function of an impossible state is not zero", got=got)
    ctx.event("empty_states")


def w_atomic(ctx):
    """Realistic sizes: d shell with Coulomb interaction and spin-orbit coupling, up to 252 product states, default Krylov size."""
    n, op = atomic.d_shell(ctx)
    nel = ctx.int(1, 9)
    masks = ctx.rng.sample(fock.all_masks(10, nel), ctx.int(1, min(10, 10)))
    psi = gen.normalised({m: ctx.coef("complex") for m in masks})
    sp = fock.space(op, psi, None)
    e, delta = float(sp.w[0]), ctx.pick([0.1, 0.2, 0.5, -0.2])
    om = np.linspace(-3, sp.w[-1] - sp.w[0] + 3, 40)
    k = 150
    g, _, err = krylov.green_and_tolerance(op, psi, om + 1j * delta + e, k, None, [sp])
    if err > krylov.MAX_ERR:
        raise Skip()
    mode, par = ctx.pick(MODES[:4])
    ctx.case("atomic", nel, sorted(op.items(), key=repr), sorted(psi), mode, par, sample=dict(nel=nel, dim=len(sp.basis), delta=delta, mode=mode, err=err))
    got = spectra.getGreen(n, e, fock.psi_to_bytes(psi, n), op, om, delta, k, 1e-12, None, {}, mode=mode, parallelization_mode=par)
    ctx.close(got, g, "Green's function of an atomic shell", rtol=krylov.tolerance(err), atol=1e-12, nel=nel, mode=mode, par=par, delta=delta)
    ctx.event("atomic_greens_functions")


def w_large(ctx):
    """Hundreds of product states; broadening such that the Krylov space converges."""
    n, op, masks = gen.big(ctx, 280, 1300, 13)
    masks = ctx.rng.sample(masks, ctx.pick([1, 3, 20, len(masks)]))
    psi = gen.normalised({m: ctx.coef("complex") for m in masks})
    sp = fock.space(op, psi, None)
    e, delta = float(sp.w[0]), ctx.pick([0.3, 0.5, 1.0, -0.5])
    om = np.linspace(-3, sp.w[-1] - sp.w[0] + 3, 40)
    k = ctx.pick([150, 150, 220])
    g, _, err = krylov.green_and_tolerance(op, psi, om + 1j * delta + e, k, None, [sp])
    if err > krylov.MAX_ERR:
        raise Skip()
    mode, par = ctx.pick(MODES[:4])
    ctx.case("large", n, sorted(op.items(), key=repr), sorted(psi), mode, par, sample=dict(n=n, dim=len(sp.basis), start=len(psi), delta=delta, mode=mode, err=err))
    got = spectra.getGreen(n, e, fock.psi_to_bytes(psi, n), op, om, delta, k, 1e-14, None, {}, mode=mode, parallelization_mode=par)
    ctx.close(got, g, "Green's function in a large space", rtol=krylov.tolerance(err), atol=1e-12, dim=len(sp.basis), mode=mode, par=par, delta=delta)
    ctx.event("large_greens_functions")


def w_mpi(ctx):
    ranks = ctx.pick([2, 3, 4])
    tasks, wants = [], []
    while len(tasks) < 10:
        try:
            n, op, restr, masks, style = system(ctx)
            psi, sp, kind = start_state(ctx, n, op, restr, masks)
        except Skip:
            continue
        rm = fock.restr_masks(restr)
        e, delta = ctx.rng.uniform(-1, 1), ctx.pick([0.1, 0.3, -0.3])
        om = mesh(ctx, sp, e, psi)
        k = ctx.pick([150, len(sp.basis) + 1])
        mode, par = ctx.pick(MODES[:4])
        g, _, err = krylov.green_and_tolerance(op, psi, om + 1j * delta + e, k, rm, [sp])
        if err > krylov.MAX_ERR:
            continue
        tasks.append(("green", dict(n=n, e=e, psi=fock.psi_to_bytes(psi, n), op=op, omega=om, delta=delta, krylov=k, restrictions=restr, mode=mode, par=par)))
        wants.append((g, krylov.tolerance(err), mode, par, len(sp.basis)))
    ctx.case(ranks, repr(tasks), sample=dict(ranks=ranks, tasks=len(tasks)))
    out = mpi.run(ctx, tasks, ranks, delay=ctx.pick([None, (0.3, 0.002)]))
    for (g, tol, mode, par, dim), res in zip(wants, out):
        for r in range(ranks):
            ctx.close(res[r][0], g, "Green's function of a rank differs from the resolvent", rtol=tol, atol=1e-12, rank=r, ranks=ranks, mode=mode, par=par, dim=dim)
            ctx.event("mpi_greens_functions")


def w_units(ctx):
    """The same problem in other units of energy."""
    n, op, restr, masks, style = system(ctx)
    rm = fock.restr_masks(restr)
    psi, sp, kind = start_state(ctx, n, op, restr, masks)
    # (products of operators below 1e-6 may be neglected)
    rows = [abs(x) for x in fock.matrix(fock.Op(op), sp.basis, rm).ravel() if abs(x) > 1e-12]
    low = int(np.log2(2e-6 / min(rows, default=1))) + 1
    u = 2.0 ** ctx.int(max(-14, low), 14)
    e = ctx.pick([0, ctx.rng.uniform(-3, 3), float(sp.w[0])])
    delta = ctx.pick([1, -1]) * ctx.rng.uniform(0.05, 1)
    om = mesh(ctx, sp, e, psi)
    k = ctx.pick([150, len(sp.basis), len(sp.basis) + 20])
    mode, par = ctx.pick(MODES)
    if mode == "dict":
        k = min(k, 2 * len(sp.basis) + 10)
    g, _, err = krylov.green_and_tolerance(op, psi, om + 1j * delta + e, k, rm, [sp])
    if err > krylov.MAX_ERR:
        raise Skip()
    ctx.case("units", n, sorted(op.items(), key=repr), sorted(psi.items()), repr(restr), mode, par, u, sample=dict(n=n, style=style, dim=len(sp.basis), mode=mode, par=par, unit=u))
    got = spectra.getGreen(n, e * u, fock.psi_to_bytes(psi, n), {p: v * u for p, v in op.items()}, om * u, delta * u, k, 0, restr, {}, mode=mode, parallelization_mode=par)
    ctx.close(np.asarray(got) * u, g, "Green's function depends on the unit of energy", rtol=krylov.tolerance(err), atol=1e-12, unit=u, mode=mode, par=par, krylov=k, dim=len(sp.basis), n=n, op=op, psi=psi, restr=restr, delta=delta, e=e)
    ctx.event("units")
    ctx.event("small_units", u < 0.01)


def w_krylov(ctx):
    """The Krylov coefficients of a matrix, in any unit."""
    d = ctx.pick([2, 3, 5, ctx.int(4, 40), ctx.int(4, 40)])
    u = 2.0 ** ctx.pick([0, 0, ctx.int(-60, 60)])
    a = ctx.np.normal(size=(d, d)) + (1j * ctx.np.normal(size=(d, d)) if ctx.chance(0.6) else 0)
    a = a + a.conj().T + ctx.pick([0, 0, -100.0]) * np.eye(d)
    v = ctx.np.normal(size=d) + 1j * ctx.np.normal(size=d)
    if ctx.chance(0.4):
        v = np.eye(d)[ctx.int(0, d - 1)].astype(complex)
    v = v / np.linalg.norm(v)
    k = ctx.int(1, min(d, 8))
    mode = ctx.pick(["sparse", "dense"])
    ctx.case("krylov", a.tobytes(), v.tobytes(), k, u, mode, sample=dict(dim=d, krylov=k, unit=u, mode=mode))
    # with complete reorthogonalisation
    q, al, be = [v], [], []
    for j in range(k):
        w = a @ q[-1]
        al.append(np.vdot(q[-1], w).real)
        for _ in range(2):
            for x in q:
                w = w - np.vdot(x, w) * x
        be.append(np.linalg.norm(w))
        if be[-1] < 1e-3 * np.linalg.norm(a) and j < k - 1:
            raise Skip()
        q.append(w / be[-1])
    h = a * u
    keep = v.copy()
    alpha, beta = finite.get_tridiagonal_krylov_vectors(scipy.sparse.csr_matrix(h), v, k, False, mode)
    ctx.check(np.array_equal(v, keep), "the start vector was modified")
    ctx.close(np.concatenate([alpha, np.abs(beta[: k - 1])]) / u, np.array(al + be[: k - 1]), "Krylov coefficients", rtol=1e-6, atol=1e-6 * np.linalg.norm(a), dim=d, krylov=k, unit=u, mode=mode)
    ctx.event("krylov_coefficients", 2 * k)


WORKLOADS = [W("green", w_green, 12000, 120000), W("small", w_small, 5000, 50000), W("units", w_units, 1500, 20000), W("krylov", w_krylov, 1500, 20000), W("empty", w_empty, 60, 300), W("atomic", w_atomic, 200, 2500), W("large", w_large, 32, 500), W("mpi", w_mpi, 8, 80, first=True)]
