"""C04: cached operator action is transparent."""
import copy

import numpy as np

from impurityModel.ed import finite, spectra
from impurityModel.ed.finite import applyOp, expand_basis
from vm import hook, fock, gen, krylov, systems
from vm.core import W

CUT = 1e-12


class RowMonitor:
    """Checks every entry of a cache against the operator's action on that one product state."""

    def __init__(self, ctx, n, op, restr, cut=CUT, check_restr=True):
        self.ctx, self.n, self.op, self.cut = ctx, n, fock.Op(op), cut
        self.rm = fock.restr_masks(restr)
        self.restr = restr
        self.exact = {}
        self.snapshot = {}

    def row(self, b):
        if b not in self.exact:
            self.exact[b] = fock.psi_to_bytes(self.op.row(fock.from_bytes(b, self.n), self.rm), self.n)
        return self.exact[b]

    def check(self, cache, what):
        ctx = self.ctx
        ids = {}
        for b, row in cache.items():
            if b in self.snapshot:
                if row != self.snapshot[b]:
                    ctx.check(False, "%s: a stored entry changed" % what, state=b, before=self.snapshot[b], after=row, n=self.n)
                ctx.event("rows_rechecked")
            else:
                ctx.close_dict(row, self.row(b), "%s: stored entry differs from the operator acting on this product state" % what,
                               rtol=1e-11, atol=1e-12, cut2=self.cut, state=b, n=self.n, restrictions=self.restr)
                ctx.event("rows_checked")
                if not self.row(b):
                    ctx.event("zero_rows_checked")
                self.snapshot[b] = dict(row)
            ctx.check(id(row) not in ids, "%s: two entries share one object" % what, a=ids.get(id(row)), b=b)
            ids[id(row)] = b
        for b in self.snapshot:
            ctx.check(b in cache, "%s: a stored entry disappeared" % what, state=b)


def tol_missing(psi, cut):
    return (len(psi) * max([abs(v) for v in psi.values()], default=0) * cut**0.5) ** 2 + cut


def w_history(ctx):
    n = ctx.size(2, 200, 14, 0.7)
    orbs = list(range(n)) if n <= 14 else ctx.rng.sample(range(n), 10)
    nel = ctx.int(1, n - 1) if ctx.chance(0.7) else None
    op = gen.op_general(ctx, n, ctx.int(1, 15), 5, orbs) if ctx.chance(0.5) else gen.hermitian(ctx, n, ctx.int(1, 10), ctx.int(0, 8), orbs, diag=ctx.chance(0.4))
    pool = list({gen.mask(ctx, n, nel) for _ in range(ctx.int(1, 8))})
    pool += [k for k in list(fock.apply_op(op, {m: 1 for m in pool})) if ctx.chance(0.5)][:10]
    images = list(fock.apply_op(op, {m: 1 for m in pool}))
    restr = gen.restrictions(ctx, n, images or pool) if ctx.chance(0.6) else None
    cut = ctx.pick([None, CUT, 1e-10])
    kw = {} if cut is None else {"slaterWeightMin": cut}
    c = CUT if cut is None else cut
    mon = RowMonitor(ctx, n, op, restr, c)
    cache = {}
    steps = ctx.int(2, 10)
    ctx.case(n, sorted(op.items(), key=repr), sorted(pool), repr(restr), steps, sample=dict(n=n, processes=len(op), pool=len(pool), steps=steps, restrictions=restr))
    prev = None
    results = []
    for step in range(steps):
        kind = ctx.pick(["single", "super", "super", "repeat", "result", "cancel", "zero_amp"])
        if kind == "repeat" and prev:
            psi = dict(prev)
        elif kind == "single":
            psi = {ctx.pick(pool): ctx.pick([1, 1.0, ctx.coef()])}
        elif kind == "result" and results and results[-1]:
            psi = {k: v for k, v in list(results[-1].items())[:6]}
        elif kind == "cancel" and prev:
            psi = {k: -v for k, v in prev.items()}
            psi[ctx.pick(pool)] = ctx.coef()
        else:
            psi = {ctx.pick(pool): ctx.coef() for _ in range(ctx.int(1, 6))}
        if kind == "zero_amp":
            psi[ctx.pick(pool)] = 0
        prev = psi
        bpsi = fock.psi_to_bytes(psi, n)
        keep = dict(bpsi)
        got_b = applyOp(n, op, bpsi, restrictions=restr, opResult=cache, **kw)
        ctx.event("cached_calls")
        ctx.check(bpsi == keep, "the state was modified")
        got = fock.psi_from_bytes(got_b, n)
        want = mon_apply(mon, psi, n)
        ctx.close_dict(got, want, "result with a pre-filled cache differs from a fresh computation (step %d, %s)" % (step, kind), rtol=1e-11, atol=1e-12,
                       cut2=tol_missing(psi, c), n=n, op=op, psi=psi, restrictions=restr)
        fresh = applyOp(n, op, bpsi, restrictions=restr, **kw)
        ctx.close_dict(got_b, fresh, "cached and uncached results differ", rtol=1e-11, atol=1e-12, cut2=tol_missing(psi, c))
        mon.check(cache, "operator cache")
        ctx.check(all(k in cache for k in keep), "a processed product state was not stored")
        results.append(got)
        # the caller owns the result: modifying it must not influence the cache
        for k in list(got_b):
            got_b[k] = 12345.678
        got_b[b"\x00" * ((n + 7) // 8)] = 1.0
        if cut is None and ctx.chance(0.2):
            fresh.clear()
    mon.check(cache, "operator cache after the results were modified")


def mon_apply(mon, psi, n):
    out = {}
    for k, a in psi.items():
        for b, v in mon.op.row(k, mon.rm).items():
            out[b] = out.get(b, 0) + a * v
    return out


def w_shared(ctx):
    """One store filled alternately by operator application, basis expansion and Green's functions."""
    n = ctx.int(3, 9)
    op = gen.hermitian(ctx, n, ctx.int(2, 8), ctx.int(0, 6), diag=ctx.chance(0.7))
    nel = ctx.int(1, n - 1)
    pool = [gen.mask(ctx, n, nel) for _ in range(4)]
    restr = gen.restrictions(ctx, n, pool) if ctx.chance(0.5) else None
    rm = fock.restr_masks(restr)
    if restr is not None:
        pool = [m for m in pool if fock.allowed(m, rm)]
        if not pool:  # (a start outside the restrictions has no Hermitian Hamiltonian)
            restr, rm = None, None
            pool = [gen.mask(ctx, n, nel) for _ in range(3)]
    mon = RowMonitor(ctx, n, op, restr)
    cache = {}
    ctx.case(n, sorted(op.items(), key=repr), sorted(pool), repr(restr), sample=dict(n=n, nel=nel, processes=len(op), restrictions=restr))
    omega = np.linspace(-3, 3, 7)
    for step in range(ctx.int(2, 6)):
        psi = gen.normalised({ctx.pick(pool): ctx.coef() for _ in range(ctx.int(1, 3))})
        bpsi = fock.psi_to_bytes(psi, n)
        what = ctx.pick(["apply", "expand", "green", "green_dict"])
        if what == "apply":
            got = applyOp(n, op, bpsi, restrictions=restr, opResult=cache)
            ctx.close_dict(fock.psi_from_bytes(got, n), mon_apply(mon, psi, n), "apply with a shared store", atol=1e-10, cut2=tol_missing(psi, CUT))
        elif what == "expand":
            basis = expand_basis(n, cache, op, tuple(bpsi), restr, ctx.pick(["serial", "H_build"]))
            want, _ = fock.closure(mon.op, psi, rm)
            ctx.equal(set(basis), {fock.to_bytes(m, n) for m in want}, "basis expansion with a shared store")
        else:
            mode = "dict" if what == "green_dict" else ctx.pick(["sparse", "dense"])
            e, delta = ctx.rng.uniform(-1, 1), ctx.pick([0.3, 0.5, 1.0])
            g = spectra.getGreen(n, e, bpsi, op, omega, delta, 400 if mode != "dict" else 12, 0, restr, cache, mode=mode)
            if mode != "dict":
                gw, _, err = krylov.green_and_tolerance(mon.op, psi, omega + 1j * delta + e, 400, rm)
                if err < krylov.MAX_ERR:
                    ctx.close(g, gw, "Green's function with a shared store (%s)" % mode, rtol=krylov.tolerance(err), atol=1e-9)
                    ctx.event("shared_store_greens_functions")
        ctx.event("shared_store_steps")
        mon.check(cache, "shared store after %s" % what)


def w_pipeline(ctx):
    """Online monitor on every operator application inside complete spectra and RIXS calculations."""
    s = systems.random_core_system(ctx)
    n = s.n
    masks = {}
    recs = {}

    def make(real):
        def monitored(*a, **k):
            x = hook.arguments(real, a, k, ["n_spin_orbitals", "op", "psi", "slaterWeightMin", "restrictions", "opResult"])
            return real(*a, **k) if x is None else observe(real, *x)

        return monitored

    def observe(real, n_spin_orbitals, op, psi, slaterWeightMin, restrictions, opResult):
        first_step = opResult is not None and id(opResult) not in recs
        if opResult is not None:
            if first_step:
                recs[id(opResult)] = (RowMonitor(ctx, n, op, restrictions, slaterWeightMin), opResult)
            mon, _ = recs[id(opResult)]
            snapshot_in = dict(psi)
        out = real(n_spin_orbitals, op, psi, slaterWeightMin, restrictions, opResult)
        if opResult is not None:
            key = id(op)
            masks.setdefault(key, (fock.Op(op), op))
            fop = masks[key][0]
            rm = fock.restr_masks(restrictions)
            want = {}
            for k, a in snapshot_in.items():
                for b, v in fop.row(fock.from_bytes(k, n), rm).items():
                    want[b] = want.get(b, 0) + a * v
            ctx.close_dict(fock.psi_from_bytes(out, n), want, "cached operator application inside a spectrum calculation", rtol=1e-9, atol=1e-10,
                           cut2=tol_missing(snapshot_in, slaterWeightMin))
            mon.check(opResult, "cache inside a spectrum calculation")
            ctx.event("pipeline_cached_calls")
        return out

    cut = ctx.pick([1e-7, 1e-10, 1e-12])
    ctx.case(s.sig(), cut, sample=s.describe())
    w = np.linspace(-4, 4, 5)
    with hook.hooked("applyOp", make):
        es, psis = s.states(ctx, ctx.int(1, 3))
        bps = [fock.psi_to_bytes(p, n) for p in psis]
        spectra.getSpectra(n, s.h, s.t_in, bps, es, w, 0.5, s.restr, slaterWeightMin=cut, parallelization_mode=ctx.pick(["H_build", "eigen_states"]))
        hg = {}
        spectra.getRIXSmap(n, s.h, s.t_in, s.t_out, bps, es, np.array([-1.0, 1.5]), w, 0.6, 0.4, s.restr, slaterWeightMin=cut,
                           h_dict_ground=hg, parallelization_mode=ctx.pick(["serial", "H_build", "wIn", "H_build_wIn"]))
    RowMonitor(ctx, n, s.h, s.restr, CUT).check(hg, "ground state store returned by the RIXS calculation")
    ctx.event("rixs_store_rows", len(hg))


WORKLOADS = [W("history", w_history, 10000, 150000), W("shared", w_shared, 4000, 50000), W("pipeline", w_pipeline, 800, 9000)]
