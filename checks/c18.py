"""C18: RIXS maps obey the Kramers-Heisenberg formula for every polarisation pair."""
import contextlib

import numpy as np

from impurityModel.ed import spectra
from vm import fock, gen, mpi, spec, systems
from vm.core import Skip, W

PARS = ["serial", "H_build", "wIn", "H_build_wIn"]


@contextlib.contextmanager
def solver(exact, log):
    """Monitors the iterative solver: convergence; with exact=True its solution is replaced by that of a direct solver."""
    import scipy.sparse.linalg as sl

    real = sl.bicgstab

    def monitored(a, b, *args, **kw):
        log["calls"] += 1
        if exact:
            d = a.toarray() if hasattr(a, "toarray") else np.asarray(a)
            return np.linalg.solve(d, b), 0
        x, info = real(a, b, *args, **kw)
        if info != 0 and real(a, b)[1] != 0:  # (not even with the solver's own settings)
            log["failed"] += 1
        return x, info

    sl.bicgstab = monitored
    old = getattr(spectra, "bicgstab", None)
    if old is not None:
        spectra.bicgstab = monitored
    try:
        yield
    finally:
        sl.bicgstab = real
        if old is not None:
            spectra.bicgstab = old


def params(ctx):
    win = ctx.np.uniform(-5, 5, ctx.pick([1, 2, 3, 5]))
    wl = ctx.np.uniform(-3, 6, ctx.pick([1, 3, 10]))
    if ctx.chance(0.7):
        win, wl = np.sort(win), np.sort(wl)
    sign = lambda: -1 if ctx.chance(0.12) else 1
    return win, wl, sign() * ctx.pick([0.3, 0.5, 1.0, ctx.rng.uniform(0.2, 1)]), sign() * ctx.pick([0.05, 0.1, 0.3, ctx.rng.uniform(0.05, 1)])


def system(ctx):
    s = systems.random_core_system(ctx)
    ti = [dict(t) for t in s.t_in]
    to = [dict(t) for t in s.t_out]
    if ctx.chance(0.3):
        to = [fock.dagger(t) for t in ti]
    if ctx.chance(0.2) and s.n_core:
        i = ctx.pick(s.core)
        ti.insert(ctx.int(0, len(ti)), ctx.pick([{}, {((i, "a"), (i, "a")): 1.0}]))
    if ctx.chance(0.2):
        i = ctx.pick(s.val)
        to.insert(ctx.int(0, len(to)), ctx.pick([{}, {((i, "c"), (i, "c")): 1.0}]))
    return s, ti, to


def reference(s, ti, to, psis, es, win, wl, d1, d2, cut, rtol, cache):
    g = np.zeros((len(es), len(ti), len(to), len(win), len(wl)), dtype=complex)
    t = np.full(g.shape[:4], np.nan)
    for i in range(len(es)):
        for a, x in enumerate(ti):
            for b, y in enumerate(to):
                r = spec.rixs(s.fop, x, y, psis[i], es[i], win, wl, d1, d2, s.rm, cut=cut, rtol=rtol, cache=cache)
                if r is not None:
                    g[i, a, b], t[i, a, b] = r
    return g, t


def judge(ctx, got, g, t, msg, /, **info):
    ctx.check(np.shape(got) == g.shape, msg + " (shape)", got=np.shape(got), want=g.shape, **info)
    ctx.check(np.all(np.isfinite(got)), msg + " (not finite)", **info)
    n = 0
    for k in np.ndindex(*g.shape[:4]):
        if np.isfinite(t[k]):
            ctx.close(got[k], g[k], msg, rtol=0, atol=t[k] + 1e-10, state=k[0], operator_in=k[1], operator_out=k[2], i_wIn=k[3], **info)
            n += 1
    return n


def w_large(ctx):
    """Spaces of hundreds of product states."""
    s = systems.random_core_system(ctx, big=True)
    ti, to = [dict(t) for t in s.t_in][:2], [dict(t) for t in s.t_out][:2]
    n = s.n
    es, psis = s.states(ctx, 1, "eigen")
    win, wl, d1, d2 = ctx.np.uniform(-5, 5, ctx.pick([1, 2])), np.sort(ctx.np.uniform(-3, 6, 6)), ctx.pick([0.5, 1.0]), ctx.pick([0.2, 0.5])
    cut = 1e-12
    par = ctx.pick(PARS)
    exact = ctx.chance(0.5)
    cache = []
    g, t = reference(s, ti, to, psis, es, win, wl, d1, d2, cut, 1e-11 if exact else 1e-5, cache)
    dims = [len(sp.basis) for sp in cache]
    ctx.case(s.sig(), repr(ti), repr(to), repr(win), par, sample=dict(s.describe(), dims=dims, mode=par, exact_solver=exact))
    log = dict(calls=0, failed=0)
    with solver(exact, log):
        got = spectra.getRIXSmap(n, s.h, ti, to, [fock.psi_to_bytes(p, n) for p in psis], es, win, wl, d1, d2, s.restr, slaterWeightMin=cut, parallelization_mode=par)
    if log["failed"]:
        raise Skip()
    k = judge(ctx, got, g, t, "RIXS amplitude differs from the Kramers-Heisenberg formula", **dict(s.describe(), par=par, exact=exact, dims=dims))
    if max(dims, default=0) > 100:
        ctx.event("large_maps", k)


def w_maps(ctx):
    s, ti, to = system(ctx)
    n = s.n
    es, psis = s.states(ctx, ctx.pick([1, 1, 2, 3]))
    win, wl, d1, d2 = params(ctx)
    exact = ctx.chance(0.5)
    cut = ctx.pick([None, 1e-10, 1e-13])
    c = 1e-7 if cut is None else cut
    par = ctx.pick(PARS)
    g, t = reference(s, ti, to, psis, es, win, wl, d1, d2, c, 1e-11 if exact else 1e-5, [])
    ctx.case(s.sig(), repr(ti), repr(to), repr(psis), repr(win), d1, d2, par,
             sample=dict(s.describe(), states=len(es), n_in=len(ti), n_out=len(to), wIn=len(win), wLoss=len(wl), delta1=d1, delta2=d2, mode=par, exact_solver=exact, cut=cut))
    bp = [fock.psi_to_bytes(p, n) for p in psis]
    keep = [dict(p) for p in bp], [dict(o) for o in ti + to], dict(s.h), list(es), win.copy(), wl.copy()
    kw = {}
    if cut is not None:
        kw["slaterWeightMin"] = cut
    if par != "H_build_wIn" or ctx.chance(0.5):
        kw["parallelization_mode"] = par
    if ctx.chance(0.5):
        kw["h_dict_ground"] = {}
    log = dict(calls=0, failed=0)
    with solver(exact, log):
        if s.restr is None and ctx.chance(0.5):
            got = spectra.getRIXSmap(n, s.h, ti, to, bp, es, win, wl, d1, d2, **kw)
        else:
            got = spectra.getRIXSmap(n, s.h, ti, to, bp, es, win, wl, d1, d2, s.restr, **kw)
    ctx.event("solver_calls", log["calls"])
    if log["failed"]:
        ctx.event("cases_with_unconverged_solver")
        raise Skip()
    info = dict(s.describe(), par=par, exact=exact, delta1=d1, delta2=d2, n_in=len(ti), n_out=len(to), n_states=len(es))
    ctx.event("maps_compared", judge(ctx, got, g, t, "RIXS amplitude differs from the Kramers-Heisenberg formula", **info))
    ctx.check(keep[:4] == ([dict(p) for p in bp], [dict(o) for o in ti + to], dict(s.h), list(es)) and np.array_equal(keep[4], win) and np.array_equal(keep[5], wl), "arguments were modified")
    for i, p in enumerate(psis):
        for a, x in enumerate(ti):
            if not spec.excited(x, p, s.rm):
                ctx.check(np.all(got[i, a] == 0), "map of an impossible absorption is not zero", **info)
                ctx.event("impossible_transitions")
        for b, y in enumerate(to):
            if not y:
                ctx.check(np.all(got[i, :, b] == 0), "map of an impossible emission is not zero", **info)
                ctx.event("impossible_transitions")
    ctx.event("mode_" + par)
    if exact:
        ctx.event("exact_solver_cases")
    if len(to) > 1:
        ctx.event("several_outgoing")
    if len(ti) > 1:
        ctx.event("several_incoming")
    if len(es) > 1:
        ctx.event("several_states")


def w_independent(ctx):
    """The map of one combination is the same alone, together with others, in any order, mode, and with a shared store."""
    s, ti, to = system(ctx)
    n = s.n
    es, psis = s.states(ctx, ctx.int(1, 3))
    win, wl, d1, d2 = params(ctx)
    cut = 1e-13
    bp = [fock.psi_to_bytes(p, n) for p in psis]
    ctx.case("ind", s.sig(), repr(ti), repr(to), repr(psis), repr(win), sample=dict(s.describe(), states=len(es), n_in=len(ti), n_out=len(to)))
    store = {}

    def call(si, ii, oi, wi, par, st):
        kw = dict(h_dict_ground=store) if st else {}
        return spectra.getRIXSmap(n, s.h, [ti[k] for k in ii], [to[k] for k in oi], [bp[k] for k in si], [es[k] for k in si], win[wi], wl, d1, d2, s.restr, slaterWeightMin=cut,
                                  parallelization_mode=par, **kw)

    log = dict(calls=0, failed=0)
    with solver(True, log):
        full = call(range(len(es)), range(len(ti)), range(len(to)), list(range(len(win))), ctx.pick(PARS), False)
        g, t = reference(s, ti, to, psis, es, win, wl, d1, d2, cut, 1e-11, [])
        for _ in range(2):
            si = ctx.rng.choices(range(len(es)), k=ctx.int(1, 2))
            ii = ctx.rng.choices(range(len(ti)), k=ctx.int(1, 2))
            oi = ctx.rng.choices(range(len(to)), k=ctx.int(1, 2))
            wi = ctx.rng.choices(range(len(win)), k=ctx.int(1, 2))
            par = ctx.pick(PARS)
            got = call(si, ii, oi, wi, par, ctx.chance(0.6))
            for k in np.ndindex(len(si), len(ii), len(oi), len(wi)):
                f = (si[k[0]], ii[k[1]], oi[k[2]], wi[k[3]])
                if np.isfinite(t[f]):
                    ctx.close(got[k], full[f], "map depends on what is calculated with it", rtol=0, atol=2 * t[f] + 1e-10, par=par, states=si, ins=ii, outs=oi, wins=wi)
                    ctx.event("independent_results")
    if store:
        ctx.event("shared_stores")


def w_level(ctx):
    """Exactly solvable: independent levels; the amplitude is a product of two Lorentzians at known positions."""
    nc, nv = ctx.int(1, 3), ctx.int(1, 4)
    n = nc + nv
    eps = [ctx.rng.uniform(-3, 3) for _ in range(n)]
    h = {((i, "c"), (i, "a")): eps[i] for i in range(n)}
    occ_v = ctx.rng.sample(range(nc, n), ctx.int(0, nv - 1))
    empty = [v for v in range(nc, n) if v not in occ_v]
    c, v = ctx.int(0, nc - 1), ctx.pick(empty)
    v2 = ctx.pick(occ_v + [v])
    m = fock.mask_of(list(range(nc)) + occ_v)
    e = sum(eps[i] for i in range(n) if m >> i & 1)
    a, b = ctx.coef(lo=0.3), ctx.coef(lo=0.3)
    win, wl, d1, d2 = params(ctx)
    par = ctx.pick(PARS)
    ctx.case("level", nc, nv, repr(eps), c, v, v2, repr(win), par, sample=dict(nc=nc, nv=nv, mode=par))
    got = spectra.getRIXSmap(n, h, [{((v, "c"), (c, "a")): a}], [{((c, "c"), (v2, "a")): b}], [{fock.to_bytes(m, n): 1.0}], [e], win, wl, d1, d2, parallelization_mode=par)
    want = np.array([[abs(a) ** 2 * abs(b) ** 2 / ((x - (eps[v] - eps[c])) ** 2 + d1**2) / (y + 1j * d2 - (eps[v] - eps[v2])) for y in wl] for x in win])
    ctx.close(got[0, 0, 0], want, "RIXS amplitude of independent levels", rtol=1e-6, atol=1e-9, mode=par)
    ctx.event("exact_levels")


def w_many(ctx):
    """Many states, incoming energies, energy losses or operators in one call."""
    for _ in range(20):
        s = systems.random_core_system(ctx, n_core_max=2, n_val_max=5)
        if len(s.ground_masks()) >= 6:
            break
    n = s.n
    kind = ctx.pick(["states", "wIn", "wLoss", "incoming", "outgoing"])
    es, psis = s.states(ctx, ctx.int(6, 25) if kind == "states" else 1)
    if kind == "states":
        for i in ctx.rng.choices(range(len(es)), k=ctx.int(5, 10)):
            es, psis = es + [es[i]], psis + [dict(psis[i])]
    win, wl, d1, d2 = params(ctx)
    win, wl = win[:2], wl[:3]
    if kind == "wIn":
        win = ctx.np.uniform(-5, 5, ctx.int(20, 80))
    if kind == "wLoss":
        wl = ctx.np.uniform(-3, 6, ctx.int(500, 6000))
    scaled = lambda lst, k: [{p: v * ctx.rng.uniform(0.4, 2) for p, v in ctx.pick(lst).items()} for _ in range(k)]
    ti, to = [dict(t) for t in s.t_in][:1], [dict(t) for t in s.t_out][:1]
    if kind == "incoming":
        ti = scaled(s.t_in, ctx.int(6, 20))
    if kind == "outgoing":
        to = scaled(s.t_out, ctx.int(7, 30))
    par = ctx.pick(PARS)
    cut = 1e-12
    g, t = reference(s, ti, to, psis, es, win, wl, d1, d2, cut, 1e-11, [])
    ctx.case(s.sig(), repr(ti), repr(to), repr(psis), repr(win), par, sample=dict(s.describe(), states=len(es), n_in=len(ti), n_out=len(to), wIn=len(win), wLoss=len(wl), mode=par))
    log = dict(calls=0, failed=0)
    with solver(True, log):
        got = spectra.getRIXSmap(n, s.h, ti, to, [fock.psi_to_bytes(p, n) for p in psis], es, win, wl, d1, d2, s.restr, slaterWeightMin=cut, parallelization_mode=par)
    judge(ctx, got, g, t, "RIXS amplitude differs from the Kramers-Heisenberg formula", **dict(s.describe(), par=par, n_in=len(ti), n_out=len(to), n_states=len(es), n_wIn=len(win), n_wLoss=len(wl)))
    ctx.event("many_" + kind)


def w_mpi(ctx):
    ranks = ctx.pick([2, 3, 4, 5])
    tasks, wants = [], []
    while len(tasks) < 4:
        s, ti, to = system(ctx)
        es, psis = s.states(ctx, ctx.pick([1, 2]))
        win, wl, d1, d2 = params(ctx)
        win = win[:3]
        g, t = reference(s, ti, to, psis, es, win, wl, d1, d2, 1e-12, 1e-5, [])
        par = ctx.pick(PARS)
        log = dict(calls=0, failed=0)
        args = dict(n=s.n, op=s.h, tin=ti, tout=to, psis=[fock.psi_to_bytes(p, s.n) for p in psis], es=es, win=win, wloss=wl, d1=d1, d2=d2, restrictions=s.restr, par=par, cut=1e-12)
        with solver(False, log):  # (only to see whether the iterative solver converges for this case)
            spectra.getRIXSmap(s.n, s.h, ti, to, args["psis"], es, win, wl, d1, d2, s.restr, slaterWeightMin=1e-12, parallelization_mode="serial")
        if log["failed"]:
            continue
        tasks.append(("rixs", args))
        wants.append((g, t, par))
    ctx.case(ranks, repr(tasks), sample=dict(ranks=ranks, tasks=len(tasks)))
    out = mpi.run(ctx, tasks, ranks, delay=ctx.pick([None, (0.02, 0.002)]))
    for (g, t, par), res in zip(wants, out):
        for r in range(ranks):
            ctx.event("mpi_maps", judge(ctx, res[r][0], g, t, "RIXS map of a rank differs", rank=r, ranks=ranks, par=par))


WORKLOADS = [W("maps", w_maps, 900, 15000), W("independent", w_independent, 300, 5000), W("levels", w_level, 200, 2000), W("large", w_large, 40, 400), W("many", w_many, 40, 400), W("mpi", w_mpi, 8, 80, first=True)]
