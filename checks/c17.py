"""C17: spectra equal the exact spectral sum for every transition and eigenstate."""
import numpy as np

from impurityModel.ed import spectra
from vm import fock, gen, mpi, spec, systems
from vm.core import Skip, W


def transitions(ctx, s, kmax=4):
    """A list of transition operators: dipole-like, scattering, removal, addition, impossible ones."""
    ops = []
    for _ in range(ctx.int(1, kmax)):
        r = ctx.pick(["in", "in", "scatter", "remove", "add", "impossible", "diagonal", "out"])
        if r == "in":
            t = ctx.pick(s.t_in)
        elif r == "out":
            t = ctx.pick(s.t_out)
        elif r == "scatter":
            t = {((ctx.pick(s.val), "c"), (ctx.pick(s.val), "a")): ctx.coef() for _ in range(ctx.int(1, 5))}
        elif r == "remove":
            t = {((i, "a"),): ctx.coef() for i in ctx.rng.sample(s.val + s.core, ctx.int(1, 2))}
        elif r == "add":
            t = {((i, "c"),): ctx.coef() for i in ctx.rng.sample(s.val, ctx.int(1, min(3, len(s.val))))}
        elif r == "diagonal":
            t = {((i, "c"), (i, "a")): ctx.coef() for i in ctx.rng.sample(s.val, ctx.int(1, len(s.val)))}
        else:
            i = ctx.pick(s.val)
            t = {((i, "a"), (i, "a")): 1.0, ((i, "c"), (i, "c")): ctx.coef()} if ctx.chance(0.5) else {}
        ops.append(dict(t))
    return ops


def params(ctx, s):
    w = ctx.np.uniform(-6, 6, ctx.pick([1, 2, 5, 20]))
    if ctx.chance(0.6):
        w = np.sort(w)
    delta = ctx.pick([1, 1, -1]) * ctx.pick([0.05, 0.1, 0.2, 0.5, ctx.rng.uniform(0.05, 1)])
    return w, delta


def reference(ctx, s, ops, psis, es, w, delta, cut, cache):
    g = np.zeros((len(es), len(ops), len(w)), dtype=complex)
    t = np.full((len(es), len(ops)), np.nan)
    for i in range(len(es)):
        for j, o in enumerate(ops):
            r = spec.spectrum(s.fop, o, psis[i], es[i], w, delta, s.rm, cut=cut, cache=cache)
            if r is not None:
                g[i, j], t[i, j] = r
    return g, t


def judge(ctx, got, g, t, msg, /, **info):
    ctx.check(np.shape(got) == g.shape, msg + " (shape)", got=np.shape(got), want=g.shape, **info)
    n = 0
    for i in range(g.shape[0]):
        for j in range(g.shape[1]):
            if np.isfinite(t[i, j]):
                ctx.close(got[i, j], g[i, j], msg, rtol=0, atol=t[i, j] + 1e-10, state=i, operator=j, **info)
                n += 1
    return n


def w_spectra(ctx):
    s = systems.random_core_system(ctx)
    n = s.n
    ops = transitions(ctx, s)
    es, psis = s.states(ctx, ctx.pick([1, 1, 2, 3, 4]))
    if ctx.chance(0.2):
        i = ctx.int(0, len(es) - 1)
        es, psis = es + [es[i]], psis + [dict(psis[i])]
    w, delta = params(ctx, s)
    cut = ctx.pick([None, 1e-12, 1e-14, 1e-10])
    c = 1e-7 if cut is None else cut
    par = ctx.pick(["H_build", "eigen_states"])
    cache = []
    g, t = reference(ctx, s, ops, psis, es, w, delta, c, cache)
    ctx.case(s.sig(), repr(ops), repr(psis), delta, par, sample=dict(s.describe(), operators=len(ops), states=len(es), delta=delta, mode=par, cut=cut))
    bp = [fock.psi_to_bytes(p, n) for p in psis]
    keep = [dict(p) for p in bp], [dict(o) for o in ops], dict(s.h), list(es)
    kw = {}
    if cut is not None:
        kw["slaterWeightMin"] = cut
    if par != "H_build" or ctx.chance(0.5):
        kw["parallelization_mode"] = par
    if ctx.chance(0.3):
        kw["krylovSize"] = ctx.pick([150, 200, 60])
    if s.restr is None and ctx.chance(0.5):
        got = spectra.getSpectra(n, s.h, ops, bp, es, w, delta, **kw)
    else:
        got = spectra.getSpectra(n, s.h, ops, bp, es, w, delta, s.restr, **kw)
    info = dict(s.describe(), par=par, cut=cut, delta=delta, n_ops=len(ops), n_states=len(es))
    if kw.get("krylovSize", 150) >= 150:
        n_cmp = judge(ctx, got, g, t, "spectrum differs from the spectral sum", **info)
        ctx.event("spectra_compared", n_cmp)
    ctx.check(keep == ([dict(p) for p in bp], [dict(o) for o in ops], dict(s.h), list(es)), "arguments were modified", **info)
    # impossible transitions are exactly zero
    for i, p in enumerate(psis):
        for j, o in enumerate(ops):
            if not spec.excited(o, p, None):
                ctx.check(np.all(got[i, j] == 0), "spectrum of an impossible transition is not zero", state=i, operator=j, op=o, got=got[i, j], **info)
                ctx.event("impossible_transitions")
            elif s.rm and not spec.excited(o, p, s.rm):
                ctx.check(np.all(got[i, j] == 0), "spectrum of a transition forbidden by the occupation limits is not zero", state=i, operator=j, op=o, got=got[i, j], **info)
                ctx.event("restricted_transitions")
    if len(es) > 1:
        ctx.event("several_states")
    if len(ops) > 1:
        ctx.event("several_operators")
    ctx.event("mode_" + par)
    if delta < 0:
        ctx.event("negative_delta")


def w_independent(ctx):
    """The result for one operator and one state is the same alone, in any order, and with either mode."""
    s = systems.random_core_system(ctx)
    n = s.n
    ops = transitions(ctx, s, 5)
    es, psis = s.states(ctx, ctx.int(2, 4))
    w, delta = params(ctx, s)
    cut = 1e-13
    ctx.case(s.sig(), repr(ops), repr(psis), delta, sample=dict(s.describe(), operators=len(ops), states=len(es)))
    bp = [fock.psi_to_bytes(p, n) for p in psis]

    def call(oi, si, par):
        return spectra.getSpectra(n, s.h, [ops[j] for j in oi], [bp[i] for i in si], [es[i] for i in si], w, delta, s.restr, slaterWeightMin=cut, parallelization_mode=par)

    O, S = list(range(len(ops))), list(range(len(es)))
    full = call(O, S, "H_build")
    cache = []
    g, t = reference(ctx, s, ops, psis, es, w, delta, cut, cache)
    scale = np.where(np.isfinite(t), t, np.inf)
    for par in ("H_build", "eigen_states"):
        oi = ctx.rng.choices(O, k=ctx.int(1, len(O)))
        si = ctx.rng.choices(S, k=ctx.int(1, len(S)))
        got = call(oi, si, par)
        ctx.check(np.shape(got) == (len(si), len(oi), len(w)), "shape of the result", got=np.shape(got), want=(len(si), len(oi), len(w)))
        for a, i in enumerate(si):
            for b, j in enumerate(oi):
                if np.isfinite(scale[i, j]):
                    ctx.close(got[a, b], full[i, j], "result depends on the other operators or states in the call", rtol=0, atol=2 * scale[i, j] + 1e-10, par=par, operators=oi, states=si)
                    ctx.event("independent_results")


def w_single_values(ctx):
    """Exactly solvable: one electron level; the Lorentzian, and its position and weight."""
    n = ctx.int(2, 12)
    eps = [ctx.rng.uniform(-4, 4) for _ in range(n)]
    h = {((i, "c"), (i, "a")): eps[i] for i in range(n)}
    occ = ctx.rng.sample(range(n), ctx.int(1, n - 1))
    m = fock.mask_of(occ)
    i = ctx.pick(occ)
    j = ctx.pick([x for x in range(n) if x not in occ])
    t = ctx.coef()
    w = np.sort(ctx.np.uniform(-9, 9, 30))
    delta = ctx.pick([0.1, 0.4, -0.2])
    e = sum(eps[x] for x in occ)
    kind = ctx.pick(["move", "remove", "add"])
    op, gap = {"move": ({((j, "c"), (i, "a")): t}, eps[j] - eps[i]), "remove": ({((i, "a"),): t}, -eps[i]), "add": ({((j, "c"),): t}, eps[j])}[kind]
    ctx.case("level", n, repr(eps), kind, sample=dict(n=n, kind=kind))
    got = spectra.getSpectra(n, h, [op], [{fock.to_bytes(m, n): 1.0}], [e], w, delta, None, parallelization_mode=ctx.pick(["H_build", "eigen_states"]))
    ctx.close(got[0, 0], abs(t) ** 2 / (w + 1j * delta - gap), "spectrum of a single level", rtol=1e-9, atol=1e-10, kind=kind)
    ctx.event("exact_levels")


def w_large(ctx):
    """Spaces of hundreds of product states."""
    s = systems.random_core_system(ctx, big=True)
    n = s.n
    ops = transitions(ctx, s, 3)
    es, psis = s.states(ctx, ctx.pick([1, 2]), "eigen")
    w, delta = params(ctx, s)
    delta = ctx.pick([0.3, 0.6, -0.5])
    cut = ctx.pick([1e-7, 1e-12])
    par = ctx.pick(["H_build", "eigen_states"])
    cache = []
    g, t = reference(ctx, s, ops, psis, es, w, delta, cut, cache)
    dims = [len(sp.basis) for sp in cache]
    ctx.case(s.sig(), repr(ops), delta, par, sample=dict(s.describe(), dims=dims, operators=len(ops), states=len(es), mode=par))
    got = spectra.getSpectra(n, s.h, ops, [fock.psi_to_bytes(p, n) for p in psis], es, w, delta, s.restr, slaterWeightMin=cut, parallelization_mode=par)
    k = judge(ctx, got, g, t, "spectrum differs from the spectral sum", **dict(s.describe(), par=par, cut=cut, delta=delta, dims=dims))
    if max(dims, default=0) > 100:
        ctx.event("large_spectra", k)


def w_many(ctx):
    """Many operators, many states or many energies in one call."""
    for _ in range(20):
        s = systems.random_core_system(ctx, n_core_max=2, n_val_max=5)
        if len(s.ground_masks()) >= 6:
            break
    n = s.n
    kind = ctx.pick(["operators", "states", "energies"])
    pool = [t for t in transitions(ctx, s, 4) + [dict(t) for t in s.t_in]]
    es, psis = s.states(ctx, ctx.int(14, 70) if kind == "states" else ctx.pick([1, 2]))
    if kind == "states":
        for i in ctx.rng.choices(range(len(es)), k=ctx.int(10, 40)):  # and some more than once
            es, psis = es + [es[i]], psis + [dict(psis[i])]
    ops = [pool[-1]] + ctx.rng.sample(pool, ctx.int(0, 2))
    if kind == "operators":
        ops = [{p: v * ctx.rng.uniform(0.3, 2) for p, v in ctx.pick(pool).items()} for _ in range(ctx.int(20, 120))]
    w, delta = params(ctx, s)
    if kind == "energies":
        w = ctx.np.uniform(-6, 6, ctx.int(500, 8000))
        if ctx.chance(0.5):
            w = np.sort(w)
    else:
        w = w[:3]
    cut, par, cache = 1e-12, ctx.pick(["H_build", "eigen_states"]), []
    g, t = reference(ctx, s, ops, psis, es, w, delta, cut, cache)
    ctx.case(s.sig(), repr(ops), repr(psis), delta, par, sample=dict(s.describe(), operators=len(ops), states=len(es), energies=len(w), mode=par))
    got = spectra.getSpectra(n, s.h, ops, [fock.psi_to_bytes(p, n) for p in psis], es, w, delta, s.restr, slaterWeightMin=cut, parallelization_mode=par)
    judge(ctx, got, g, t, "spectrum differs from the spectral sum", **dict(s.describe(), par=par, cut=cut, delta=delta, n_ops=len(ops), n_states=len(es), n_w=len(w)))
    ctx.event("many_" + kind)


def w_mpi(ctx):
    ranks = ctx.pick([2, 3, 4, 5])
    tasks, wants = [], []
    while len(tasks) < 6:
        s = systems.random_core_system(ctx)
        ops = transitions(ctx, s)
        es, psis = s.states(ctx, ctx.pick([1, 2, 3, 5]))
        w, delta = params(ctx, s)
        g, t = reference(ctx, s, ops, psis, es, w, delta, 1e-12, [])
        par = ctx.pick(["H_build", "eigen_states"])
        tasks.append(("spectra", dict(n=s.n, op=s.h, tops=ops, psis=[fock.psi_to_bytes(p, s.n) for p in psis], es=es, w=w, delta=delta, restrictions=s.restr, par=par, cut=1e-12)))
        wants.append((g, t, par))
    ctx.case(ranks, repr(tasks), sample=dict(ranks=ranks, tasks=len(tasks)))
    out = mpi.run(ctx, tasks, ranks, delay=ctx.pick([None, (0.3, 0.002)]))
    for (g, t, par), res in zip(wants, out):
        for r in range(ranks):
            ctx.event("mpi_spectra", judge(ctx, res[r], g, t, "spectrum of a rank differs", rank=r, ranks=ranks, par=par))


WORKLOADS = [W("spectra", w_spectra, 2500, 40000), W("independent", w_independent, 800, 12000), W("levels", w_single_values, 600, 5000), W("large", w_large, 80, 800), W("many", w_many, 40, 500), W("mpi", w_mpi, 8, 80, first=True)]
