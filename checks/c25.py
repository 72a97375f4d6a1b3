"""C25: electron number and occupation limits are respected throughout a simulation."""
import contextlib
import io
import json
import os
import pickle
import tempfile
from collections import OrderedDict

import numpy as np

from impurityModel.ed import finite, spectra
from vm import atomic, fock, gen, hook, mpi, sim, systems
from vm.core import Skip, W
from checks import c07, c18, c22


class Monitor:
    """Sees every product state that the hooked functions get or return."""

    def __init__(self, n, core, classes, rm, limits=True):
        self.n, self.core, self.classes, self.rm, self.limits = n, fock.mask_of(core), classes, rm, limits
        self.known, self.bad, self.seen, self.count = {}, [], {}, 0
        self.active = True

    def state(self, b):
        x = self.known.get(b)
        if x is None:
            m = fock.from_bytes(b, self.n)
            x = (bin(m).count("1"), bin(m & self.core).count("1"), fock.allowed(m, self.rm), m)
            self.known[b] = x
        return x

    def see(self, states, where, limits=True):
        if not self.active:
            return
        for b in states:
            self.count += 1
            n, c, ok, m = self.state(b)
            k = self.seen.setdefault((n, c), set())
            k.add(b)
            if (n, c) not in self.classes and len(self.bad) < 5:
                self.bad.append((where, "electrons and core electrons", (n, c), fock.occ_of(m)))
            if limits and self.limits and not ok and len(self.bad) < 5:
                self.bad.append((where, "occupation limit", fock.occ_of(m)))

    def store(self, h, where):
        self.see(h.keys(), where + " (keys)")
        for row in list(h.values()):
            self.see(row.keys(), where + " (rows)")

    # ---- hooks
    def hooks(self):
        st = contextlib.ExitStack()
        for name, f in (("applyOp", self.apply), ("expand_basis", self.expand), ("expand_basis_and_hamiltonian", self.expand_h), ("getGreen", self.green), ("get_hamiltonian_matrix", self.matrix)):
            st.enter_context(hook.hooked(name, f))
        return st

    def apply(self, real):
        def applyOp(*args, **kw):
            r = real(*args, **kw)
            x = hook.arguments(real, args, kw, ["psi", "restrictions", "opResult"])
            if x and isinstance(r, dict):
                self.see(x[0].keys(), "state an operator is applied to", False)
                self.see(r.keys(), "result of an operator", x[1] is not None)
                if isinstance(x[2], dict):
                    for b in x[0]:
                        if isinstance(x[2].get(b), dict):
                            self.see(x[2][b].keys(), "stored result of an operator", x[1] is not None)
            return r

        return applyOp

    def expand(self, real):
        def expand_basis(*args, **kw):
            r = real(*args, **kw)
            self.see(list(r), "active space")
            x = hook.arguments(real, args, kw, ["h_dict", "basis0"])
            if x:
                self.see(list(x[1]), "start of the active space")
                self.store(x[0], "Hamiltonian store")
            return r

        return expand_basis

    def expand_h(self, real):
        def expand_basis_and_hamiltonian(*args, **kw):
            r = real(*args, **kw)
            self.see(list(r[1]), "active space")
            x = hook.arguments(real, args, kw, ["h_dict"])
            if x:
                self.store(x[0], "Hamiltonian store")
            return r

        return expand_basis_and_hamiltonian

    def green(self, real):
        def getGreen(*args, **kw):
            x = hook.arguments(real, args, kw, ["psi"])
            if x:
                self.see(x[0].keys(), "start of a Green's function")
            return real(*args, **kw)

        return getGreen

    def matrix(self, real):
        def get_hamiltonian_matrix(*args, **kw):
            x = hook.arguments(real, args, kw, ["basis"])
            if x:
                self.see(list(x[0]), "basis of the Hamiltonian")
            return real(*args, **kw)

        return get_hamiltonian_matrix

    def judge(self, ctx, msg, /, **info):
        ctx.event("states_monitored", self.count)
        ctx.event("distinct_states", len(self.known))
        ctx.counters["oracle_comparisons"] += self.count
        ctx.check(not self.bad, msg, where=self.bad[:3], classes_allowed=sorted(self.classes), limits=self.rm, **info)


def w_simulate(ctx):
    s = sim.make(ctx, nds=(1, 2, 8, 9, 9), nbs=(0, 0, 1, 1, 2), kmax=2)
    p = sim.parameters(ctx)
    for k in ("w", "wLoss"):
        p[k] = p[k][:3]
    p["wIn"] = p["wIn"][:2]
    n_el = s.n_core + s.nd + s.nb
    info = dict(nd=s.nd, baths=s.nb, restrictions=None if s.restr is None else [(sorted(k), v) for k, v in s.restr.items()])
    ctx.case(sorted(s.hop.items(), key=repr), repr(info), sample=info)
    # initial, photoemission, inverse photoemission, core photoemission, core excitation
    m = Monitor(s.n, range(6), {(n_el, 6), (n_el - 1, 6), (n_el + 1, 6), (n_el - 1, 5), (n_el, 5)}, s.rm)
    with m.hooks():
        sim.run(s, p)
    m.judge(ctx, "a product state with a wrong electron number or outside the limits appears in a simulation", **info)
    for c, st in m.seen.items():
        ctx.event("class_%d_core%d" % (c[0] - n_el, c[1]), len(st))
    if s.restr:
        ctx.event("limited_simulations")
    ctx.event("simulations")


def w_program(ctx):
    cf = ctx.index % 4 == 0
    g, o, (nb, nv, nd, dv, dc) = c22.options(ctx, cf)
    nBaths, nVal = OrderedDict([(1, 0), (2, nb)]), OrderedDict([(1, 0), (2, nv)])
    pair = lambda k: OrderedDict(zip((1, 2), o[k]))
    masks, n = c07.reference(nBaths, nVal, pair("dnValBaths"), pair("dnConBaths"), pair("dnTols"), pair("n0imps"))
    if not 4 <= len(masks) <= (160 if ctx.thorough else 60):
        raise Skip()
    g["nPsiMax"] = o["nPsiMax"] = min(ctx.int(1, 3), len(masks) - 2)
    ix = gen.index_of(nBaths)
    val, con = [ix[(2, b)] for b in range(nv)], [ix[(2, b)] for b in range(nv, nb)]
    restr = {frozenset(ix[x] for x in atomic.shell(2)): (nd - 1, nd + o["dnTols"][1] + 1), frozenset(val): (nv - dv, nv), frozenset(con): (0, dc)}
    restr = {k: v for k, v in restr.items() if k}
    n_el = 6 + nd + nv
    core = [ix[x] for x in atomic.shell(1)]
    info = dict(program="CF" if cf else "stored", nd=nd, baths=nb, valence=nv, dnVal=dv, dnCon=dc, dnTol=o["dnTols"][1], n_orbitals=n)
    ctx.case(repr(sorted(g.items())), cf, sample=dict(info, dim=len(masks)))
    m = Monitor(n, core, {(n_el, 6), (n_el - 1, 6), (n_el + 1, 6), (n_el - 1, 5), (n_el, 5)}, fock.restr_masks(restr))
    allowed = set(masks)
    first = []

    def initial(real):
        def simulate_spectra(*args, **kw):
            x = hook.arguments(real, args, kw, ["psis", "nBaths"])
            if x:
                for q in x[0]:
                    first.extend(q.keys())
            return real(*args, **kw)

        return simulate_spectra

    module = "impurityModel.ed.get_spectra_using_CF" if cf else "impurityModel.ed.get_spectra"
    with tempfile.TemporaryDirectory() as d:
        f0 = os.path.join(d, "in_h0")
        if cf:
            with open(f0, "w") as fh:
                json.dump({}, fh)
        else:
            with open(f0, "wb") as fh:
                pickle.dump(c22.stored_h0(ctx, nb, nv), fh)
        argv = [f0, os.path.join(c22.REPO, "radialOrbitals", "Ni3d.dat")] + c22.command_line(ctx, g)
        with hook.hooked("simulate_spectra", initial), m.hooks():
            data, text, rec, out = c22.run_program(module, argv, d)
    m.judge(ctx, "a product state with a wrong electron number or outside the limits appears in a run of the program", options=g, **info)
    for b in first:
        x = fock.from_bytes(b, n)
        ctx.check(x in allowed, "an eigenstate contains a product state outside the configured space", state=fock.occ_of(x), options=g, **info)
    ctx.event("initial_states", len(first))
    r = rec["restrictions"].item()
    for k, v in restr.items():
        got = [tuple(b) for a, b in r.items() if frozenset(int(i) for i in a) == k]
        ctx.check(got == [v], "occupation limit of a group of orbitals", group=sorted(k), got=got, want=v, options=g, **info)
        ctx.event("limits_checked")
    ctx.event("program_runs")


def judge_states(ctx, states, n, core, n_el, n_core, rm, what, /, **info):
    c = fock.mask_of(core)
    for b in states:
        m = fock.from_bytes(b, n)
        ctx.check(bin(m).count("1") == n_el, what + ": electron number", state=fock.occ_of(m), want=n_el, **info)
        ctx.check(bin(m & c).count("1") == n_core, what + ": number of core electrons", state=fock.occ_of(m), want=n_core, **info)
        ctx.check(fock.allowed(m, rm), what + ": occupation limit", state=fock.occ_of(m), limits=rm, **info)
        ctx.event("states_observed")


def tight(ctx, s):
    """Limits that bite."""
    if s.restr is None or ctx.chance(0.4):
        k = ctx.int(1, len(s.val))
        a = ctx.rng.sample(s.val, k)
        na = ctx.int(max(0, s.n_val - (len(s.val) - k)), min(k, s.n_val))
        s.restr = {frozenset(a): (na - ctx.pick([0, 1]), na + ctx.pick([0, 0, 1]))}
        if ctx.chance(0.3):
            s.restr[frozenset(s.core)] = (s.n_core - 1, s.n_core)
        s.rm = fock.restr_masks(s.restr)
        if not s.ground_masks():
            raise Skip()


def w_calls(ctx):
    """Stores, active spaces and eigenstates of direct calls."""
    s = systems.random_core_system(ctx, n_val_max=7)
    tight(ctx, s)
    es, psis = s.states(ctx, ctx.pick([1, 2]))
    n, n_el = s.n, s.n_core + s.n_val
    info = dict(s.describe())
    ctx.case(s.sig(), sample=info)
    bp = [fock.psi_to_bytes(p, n) for p in psis]
    obs = lambda st, dc, what: judge_states(ctx, st, n, s.core, n_el, s.n_core - dc, s.rm, what, **info)
    # an active space with its store
    h = {}
    sp = finite.expand_basis(n, h, s.h, tuple(bp[0]), s.restr, ctx.pick(["serial", "H_build"]))
    obs(sp, 0, "active space")
    obs(list(h), 0, "store")
    for row in h.values():
        obs(row, 0, "row of the store")
    # eigenstates in it
    if 3 <= len(sp) <= 60:
        with contextlib.redirect_stdout(io.StringIO()):
            for psi in finite.eigensystem(n, s.h, tuple(sp), ctx.int(1, len(sp) - 2), ctx.pick(["full", "Lanczos"]))[1]:
                obs(psi, 0, "eigenstate")
    # excitation of the core
    if s.n_core:
        t = ctx.pick(s.t_in)
        x = finite.applyOp(n, t, bp[0], restrictions=s.restr)
        obs(x, 1, "core-excited state")
        hx = {}
        if x:
            sp = finite.expand_basis(n, hx, s.h, tuple(x), s.restr)
            obs(sp, 1, "active space of the core-excited state")
            for row in hx.values():
                obs(row, 1, "row of the store of the core-excited state")
            ctx.event("core_excited_spaces")
    # scattering: the store of the final states is shared
    hg = {}
    win, wl, d1, d2 = c18.params(ctx)
    spectra.getRIXSmap(n, s.h, s.t_in, s.t_out, bp, es, win, wl, d1, d2, s.restr, h_dict_ground=hg, parallelization_mode=ctx.pick(c18.PARS))
    obs(list(hg), 0, "store after RIXS")
    for row in hg.values():
        obs(row, 0, "row of the store after RIXS")
    if hg:
        ctx.event("rixs_stores")
    # the monitored inside
    m = Monitor(n, s.core, {(n_el, s.n_core), (n_el, s.n_core - 1)}, s.rm)
    with m.hooks():
        spectra.getSpectra(n, s.h, s.t_in, bp, es, wl, d2, s.restr, parallelization_mode=ctx.pick(["H_build", "eigen_states"]))
        spectra.getRIXSmap(n, s.h, s.t_in, s.t_out, bp, es, win[:1], wl, d1, d2, s.restr, parallelization_mode=ctx.pick(c18.PARS))
    m.judge(ctx, "a product state with a wrong electron number or outside the limits appears", **info)
    ctx.event("systems")


def w_forbidden(ctx):
    """Limits that forbid the whole process: the spectrum is exactly zero; limits that forbid nothing change nothing."""
    s = systems.random_core_system(ctx)
    s.restr, s.rm = None, None
    es, psis = s.states(ctx, 1)
    n = s.n
    bp = [fock.psi_to_bytes(p, n) for p in psis]
    w = np.linspace(-5, 5, 11)
    t = [x for x in s.t_in]
    ctx.case(s.sig(), sample=s.describe())
    # the core level must stay filled; the valence shell cannot take another electron
    for r in ({frozenset(s.core): (s.n_core, s.n_core)}, {frozenset(s.val): (0, s.n_val)}, {frozenset(s.val): (s.n_val, s.n_val), frozenset(): (0, 0)}):
        a = np.asarray(spectra.getSpectra(n, s.h, t, bp, es, w, 0.3, r))
        ctx.check(np.all(a == 0), "a process that the occupation limits forbid has intensity", limits=[(sorted(k), v) for k, v in r.items()], max=np.max(np.abs(a)), **s.describe())
        b = np.asarray(spectra.getRIXSmap(n, s.h, t, s.t_out, bp, es, w[:2], w, 0.5, 0.3, r, parallelization_mode=ctx.pick(c18.PARS)))
        ctx.check(np.all(b == 0), "a process that the occupation limits forbid has intensity (RIXS)", limits=[(sorted(k), v) for k, v in r.items()], max=np.max(np.abs(b)), **s.describe())
        ctx.event("forbidden_processes")
    wide = {frozenset(s.val): (-1, len(s.val) + 1), frozenset(s.core): (0, len(s.core)), frozenset(s.val + s.core): (0, n + 3)}
    a = np.asarray(spectra.getSpectra(n, s.h, t, bp, es, w, 0.3, None))
    b = np.asarray(spectra.getSpectra(n, s.h, t, bp, es, w, 0.3, wide))
    ctx.close(b, a, "limits that allow everything change the spectrum", rtol=1e-6, atol=1e-9, **s.describe())
    ctx.event("wide_limits")


def w_mpi(ctx):
    tasks, sys_ = [], []
    for _ in range(6):
        s = systems.random_core_system(ctx)
        try:
            tight(ctx, s)
        except Skip:
            continue
        es, psis = s.states(ctx, 1)
        bp = [fock.psi_to_bytes(p, s.n) for p in psis]
        win, wl, d1, d2 = c18.params(ctx)
        tasks.append(("rixs", dict(n=s.n, op=s.h, tin=s.t_in, tout=s.t_out, psis=bp, es=es, win=win[:3], wloss=wl, d1=d1, d2=d2, restrictions=s.restr, par=ctx.pick(["H_build", "wIn", "H_build_wIn"]))))
        sys_.append(s)
    ranks = ctx.pick([2, 3, 4])
    ctx.case(repr([s.sig() for s in sys_]), ranks, sample=dict(systems=len(sys_), ranks=ranks))
    res = mpi.run(ctx, tasks, ranks, delay=(0.02, 0.002))
    for s, per in zip(sys_, res):
        for rank, (g, hg) in enumerate(per):
            for st in [list(hg)] + [list(r) for r in hg.values()]:
                judge_states(ctx, st, s.n, s.core, s.n_core + s.n_val, s.n_core, s.rm, "store of a process after RIXS", rank=rank, **s.describe())
    ctx.event("mpi_jobs")


WORKLOADS = [W("mpi", w_mpi, 3, 40, cpu=300, first=True), W("program", w_program, 12, 160, cpu=300, first=True), W("simulate", w_simulate, 40, 900), W("calls", w_calls, 200, 6000), W("forbidden", w_forbidden, 60, 2000)]
