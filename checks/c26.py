"""C26: spectra are finite, causal, non-negative and obey the sum rules."""
import contextlib
import io
from collections import OrderedDict

import numpy as np

from impurityModel.ed import finite, spectra
from vm import atomic, fock, gen, sim, systems
from vm.core import Skip, W
from checks import c16, c18, c24

FAR = 1e6


def tan_mesh(n, a, c):
    """Frequencies and weights for integrals over the whole real axis (exponentially convergent for sums of Lorentzians)."""
    t = (np.arange(n) + 0.5) * np.pi / n - np.pi / 2
    return c + a * np.tan(t), a / np.cos(t) ** 2 * np.pi / n


def moments(g1, g2, z1, z2):
    """Zeroth and first moment from two values of the Green's function far away."""
    m = np.array([[1 / z1, 1 / z1**2], [1 / z2, 1 / z2**2]])
    g = np.array([g1, g2])
    return np.linalg.solve(m, g.reshape(2, -1)).reshape(g.shape)


def judge_sign(ctx, g, delta, msg, /, **info):
    """Finite; the spectral function -Im g (for a positive broadening) is nowhere negative."""
    g = np.asarray(g)
    ctx.check(np.all(np.isfinite(g)), msg + ": not finite", n_bad=int(np.sum(~np.isfinite(g))), broadening=delta, **info)
    if g.size == 0:
        return
    a = -np.imag(g) * np.sign(delta)
    top = np.max(np.abs(g), axis=-1, keepdims=True)
    bad = a < -1e-9 * top
    if np.any(bad):
        i = tuple(int(k[0]) for k in np.nonzero(bad))
        ctx.check(False, msg + ": negative spectral weight", at=i, got=a[i], largest=float(np.max(a)), n_bad=int(bad.sum()), broadening=delta, **info)
    ctx.event("points_observed", int(g.size))
    ctx.counters["oracle_comparisons"] += int(g.size)


class Probe:
    """One mesh for all rules: a whole-axis mesh, two far points and some ordinary ones."""

    def __init__(self, ctx, a=15.0, c=0.0, n=8000):
        self.x, self.wt = tan_mesh(n, a, c)
        self.own = np.sort(ctx.np.uniform(c - a, c + a, 15))
        self.w = np.concatenate([self.x, self.own, [FAR, -FAR]])
        self.n = n

    def norm(self, g, sign=1):
        """Integral of the spectral function."""
        return np.tensordot(-np.imag(g[..., : self.n]) * sign, self.wt, axes=(-1, 0)) / np.pi

    def far(self, g, delta):
        return moments(g[..., -2], g[..., -1], FAR + 1j * delta, -FAR + 1j * delta)

    def ordinary(self, g):
        return g[..., self.n:-2]

    def convolved(self, g, d1, d2):
        """The Green's function with broadening d2 from the spectral function with broadening d1 (all of it, causality included)."""
        a = -np.imag(g[..., : self.n]) * np.sign(d1) / np.pi
        k = 1 / (self.own[:, None] - self.x[None, :] + 1j * (d2 - d1))
        return np.tensordot(a * self.wt, k, axes=(-1, 1))


def judge_rules(ctx, p, run, d1, d2, n2, m1, scale, msg, tol=1e-6, /, **info):
    """run(w, delta) -> Green's functions [..., w]; n2, m1: expected moments of [...]."""
    g1, g2 = np.asarray(run(p.w, d1)), np.asarray(run(p.w, d2))
    for g, d in ((g1, d1), (g2, d2)):
        judge_sign(ctx, g, d, msg, **info)
        far = p.far(g, d)
        ctx.close(far[0], n2, msg + ": weight of the spectrum (sum rule)", rtol=tol, atol=1e-9, broadening=d, **info)
        if m1 is not None:
            ctx.close(far[1], m1, msg + ": first moment (sum rule)", rtol=0, atol=10 * tol * scale * (1e-9 + np.max(np.abs(n2))), broadening=d, **info)
        ctx.event("first_moments")
    s = np.sign(d1)
    ctx.close(p.norm(g1, s), n2, msg + ": integral over all energies", rtol=tol + 1e-5, atol=1e-9, broadening=d1, **info)
    ctx.close(p.convolved(g1, d1, d2), p.ordinary(g2), msg + ": another broadening is not the convolution with a Lorentzian", rtol=tol + 2e-5, atol=1e-9, deltas=(d1, d2), **info)
    ctx.event("sum_rules")
    ctx.event("convolutions")


def deltas(ctx):
    s = ctx.pick([1, 1, -1])
    d1 = ctx.rng.uniform(0.3, 0.6)
    return s * d1, s * (d1 + ctx.rng.uniform(0.3, 0.8))


def expectation(op, f, e, rm):
    y = op.apply(f, rm)
    return float(np.real(fock.inner(f, y))) - e * fock.norm2(f)


def w_green(ctx):
    n, op, restr, masks, style = c16.system(ctx, 11)
    rm = fock.restr_masks(restr)
    psi = gen.normalised({m: ctx.coef(lo=0.1) for m in masks})
    fop = fock.Op(op)
    try:
        size = len(fock.closure(fop, list(psi), rm, limit=1200)[0])
    except RuntimeError:
        raise Skip()
    scale = 1 + sum(abs(v) for v in op.values())
    m1 = expectation(fop, psi, 0, rm)
    e = ctx.pick([0, m1 + ctx.rng.uniform(-3, 3), float(np.round(m1))])
    d1, d2 = deltas(ctx)
    mode, par = ctx.pick(c16.MODES)
    k = ctx.pick([150, 150, 5, 1, 30, 300])
    if mode == "dict":
        k = min(k, 20)
    p = Probe(ctx, a=max(10.0, min(60.0, 0.3 * scale)), c=m1 - e)
    info = dict(style=style, n=n, dim=size, mode=mode, par=par, krylov=k, e=e)
    ctx.case(sorted(op.items(), key=repr), repr(psi), repr(info), sample=info)
    b = fock.psi_to_bytes(psi, n)
    run = lambda w, d: spectra.getGreen(n, e, dict(b), op, w, d, k, 0, restr, {}, mode=mode, parallelization_mode=par)
    judge_rules(ctx, p, run, d1, d2, 1.0, m1 - e, scale, "Green's function", **info)
    ctx.event("mode_" + mode)
    if size > k:
        ctx.event("unexhausted_spaces")


def w_spectra(ctx):
    s = systems.random_core_system(ctx, n_val_max=9)
    es, psis = s.states(ctx, ctx.pick([1, 2]))
    n = s.n
    kind = ctx.pick(["core", "remove", "add"])
    sign = 1
    if kind == "core":
        ops = s.t_in
    else:
        ops = [{((i, "a" if kind == "remove" else "c"),): 1} for i in s.val]
    cut = ctx.pick([0, 0, None])
    d1, d2 = deltas(ctx)
    par = ctx.pick(["H_build", "eigen_states"])
    f = [[fock.apply_op(o, x, s.rm) for o in ops] for x in psis]
    n2 = np.array([[fock.norm2(y) for y in r] for r in f])
    m1 = np.array([[expectation(s.fop, y, e, s.rm) for y in r] for r, e in zip(f, es)])
    ctx.case(s.sig(), kind, sample=dict(s.describe(), kind=kind, cut=cut))
    info = dict(s.describe(), kind=kind, cut=cut, par=par)
    kw = {} if cut is None else dict(slaterWeightMin=cut)
    bp = [fock.psi_to_bytes(x, n) for x in psis]
    run = lambda w, d: spectra.getSpectra(n, s.h, ops, bp, es, w, d, s.restr, parallelization_mode=par, **kw)
    scale = 1 + sum(abs(v) for v in s.h.values())
    judge_rules(ctx, Probe(ctx), run, d1, d2, n2, m1, scale, "spectrum (%s)" % kind, 1e-6 if cut == 0 else 1e-3, **info)
    if kind != "core" and s.restr is None:
        tot = float(np.sum(n2[0]))
        ctx.check(abs(tot - (s.n_val if kind == "remove" else len(s.val) - s.n_val)) < 1e-9, "(reference) occupied and empty states", got=tot)
        ctx.event("occupations")
    ctx.event("spectra_" + kind)


def w_rixs(ctx):
    s, ti, to = c18.system(ctx)
    es, psis = s.states(ctx, 1)
    n = s.n
    win, _, d1, _ = c18.params(ctx)
    win = win[:2]
    e1, e2 = ctx.rng.uniform(0.3, 0.5), ctx.rng.uniform(0.7, 1.2)
    par = ctx.pick(c18.PARS)
    info = dict(s.describe(), par=par, deltas=(d1, e1, e2), win=win)
    ctx.case(s.sig(), repr(info), sample=info)
    bp = [fock.psi_to_bytes(x, n) for x in psis]
    log = dict(calls=0, failed=0)
    run = lambda w, d: spectra.getRIXSmap(n, s.h, ti, to, bp, es, win, w, d1, d, s.restr, slaterWeightMin=1e-14, parallelization_mode=par)
    p = Probe(ctx)
    with c18.solver(True, log):  # the weight must not depend on the tolerance of the iterative solver
        g1, g2 = np.asarray(run(p.w, e1)), np.asarray(run(p.w, e2))
    for g, d in ((g1, e1), (g2, e2)):
        judge_sign(ctx, g, d, "RIXS", **info)
    n2 = p.far(g1, e1)[0]
    ctx.close(p.norm(g1), n2.real, "RIXS: integral over all energy losses", rtol=2e-5, atol=1e-9, **info)
    ctx.close(p.convolved(g1, e1, e2), p.ordinary(g2), "RIXS: another final-state broadening is not the convolution with a Lorentzian", rtol=3e-5, atol=1e-9, **info)
    # exact weight of the emitted states
    if not log["failed"] and log["calls"]:
        for a, x in enumerate(ti):
            y = fock.apply_op(x, psis[0], s.rm)
            if not y:
                continue
            sp = fock.space(s.fop, y, s.rm)
            for i, w in enumerate(win):
                z = sp.solve(y, w + 1j * d1 + es[0])
                for b, o in enumerate(to):
                    want = fock.norm2(fock.apply_op(o, z, s.rm))
                    ctx.check(abs(n2[0, a, b, i] - want) <= 1e-5 * want + 1e-8, "RIXS: total weight (sum rule)", got=n2[0, a, b, i], want=want, pair=(a, b), energy=w, **info)
                    ctx.event("rixs_weights")
    ctx.event("rixs_maps", int(np.prod(g1.shape[:-1])))
    # with the iterative solver
    g = np.asarray(run(p.own, e1))
    judge_sign(ctx, g, e1, "RIXS", **info)


def w_extreme(ctx):
    """Inputs at the edge of the domain: finite and of one sign."""
    s = systems.random_core_system(ctx)
    es, psis = s.states(ctx, 1)
    n = s.n
    kind = ctx.pick(["narrow", "huge", "tiny", "no hamiltonian", "on a pole", "diagonal", "far", "degenerate", "empty state space"])
    h, restr, d = dict(s.h), s.restr, 0.2
    w = np.linspace(-6, 6, 13)
    if kind == "narrow":
        d = ctx.pick([1e-3, 1e-6, 1e-9])
    elif kind in ("huge", "tiny"):
        f = 1e6 if kind == "huge" else 1e-5
        h = {k: v * f for k, v in h.items()}
        es = [e * f for e in es]
        w = w * ctx.pick([1, f])
    elif kind == "no hamiltonian":
        h, es = {}, [0.0]
    elif kind == "diagonal":
        h = {k: v for k, v in h.items() if len(k) == 2 and k[0][0] == k[1][0]}
        h = h or {((s.val[0], "c"), (s.val[0], "a")): 1.0}
    elif kind == "degenerate":
        h = {((i, "c"), (i, "a")): ctx.pick([1.0, 1.0, -2.0]) for i in range(n)}
    elif kind == "far":
        w = np.array([-1e9, -1e4, 0, 1e4, 1e9])
    elif kind == "empty state space":
        restr = {frozenset(range(n)): (s.n_core + s.n_val, s.n_core + s.n_val)}
    ctx.case(s.sig(), kind, d, sample=dict(s.describe(), kind=kind))
    fop = fock.Op(h)
    if kind == "on a pole":
        d = ctx.pick([0.2, 1e-3])
        y = fock.apply_op(s.t_in[0], psis[0], s.rm)
        if y:
            sp = fock.space(fop, y, s.rm)
            w = np.sort(np.asarray(sp.w[:13]) - es[0])
    bp = [fock.psi_to_bytes(x, n) for x in psis]
    info = dict(s.describe(), kind=kind, width=d)
    for sg in (1, -1):
        g = np.asarray(spectra.getSpectra(n, h, s.t_in + [{((s.val[0], "c"),): 1}, {((s.val[0], "a"),): 1}], bp, es, w, sg * d, restr, parallelization_mode=ctx.pick(["H_build", "eigen_states"])))
        judge_sign(ctx, g, sg * d, "spectrum", **info)
    if kind not in ("huge", "narrow", "far"):  # (where the iterative solver cannot be expected to converge)
        g = np.asarray(spectra.getRIXSmap(n, h, s.t_in, s.t_out, bp, es, w[::6], w, 0.3, d, restr, parallelization_mode=ctx.pick(c18.PARS)))
        judge_sign(ctx, g, d, "RIXS", **info)
    ctx.event("extreme_" + kind.replace(" ", "_"))
    ctx.event("extreme_inputs")


def w_ion(ctx):
    """2p-3d ions with all numbers of d electrons, far beyond the sizes an exact reference can treat."""
    nds = [1, 2, 8, 9, 9, 0, 10] if not ctx.thorough else list(range(11))
    nBaths, nd, basis, h, label = c24.ion(ctx, nds)
    F = ctx.rng.uniform
    h = finite.addOps([h, label(finite.gethHfieldop(F(-0.1, 0.1), 0.0, F(0, 0.1), l=2)), label(atomic.op_of_matrix(atomic.shell(2), np.kron(np.eye(2), atomic.cubic_field(F(0.2, 2)))))])
    h = atomic.symmetrised(h)
    n = 16
    masks = [fock.from_bytes(b, n) for b in basis]
    fop = fock.Op(h)
    if len(masks) <= 60:
        w, v = np.linalg.eigh(fock.matrix(fop, masks))
        i = ctx.int(0, min(3, len(w) - 1))
        e, psi = float(w[i]), {m: v[a, i] for a, m in enumerate(masks) if abs(v[a, i]) > 1e-9}
    else:
        psi = gen.normalised({m: ctx.coef("complex") for m in ctx.rng.sample(masks, 4)})
        e = expectation(fop, psi, 0, None)
    b = [fock.psi_to_bytes(psi, n)]
    kind = ctx.pick(["xas", "nixs", "ips", "ps", "xps"])
    if kind == "xas":
        ops = spectra.getDipoleOperators(nBaths, [[1, 0, 0], list(ctx.np.normal(size=3))])
    elif kind == "nixs":
        r = np.linspace(0.01, 6, 60)
        R = r**2 * np.exp(-1.3 * r)
        ops = spectra.getNIXSOperators(nBaths, [ctx.np.normal(size=3) * 3], 2, 2, R, R, r)
    elif kind == "ips":
        ops = spectra.getInversePhotoEmissionOperators(nBaths)[:: ctx.int(1, 4)]
    else:
        ops = spectra.getPhotoEmissionOperators(nBaths, l=1 if kind == "xps" else 2)[:: ctx.int(1, 4)]
    ctx.case(sorted(h.items(), key=repr), kind, sample=dict(nd=nd, kind=kind))
    f = [fock.apply_op(o, psi) for o in ops]
    n2 = np.array([[fock.norm2(y) for y in f]])
    m1 = np.array([[expectation(fop, y, e, None) for y in f]])
    par = ctx.pick(["H_build", "eigen_states"])
    d1, d2 = deltas(ctx)
    run = lambda w, d: spectra.getSpectra(n, h, ops, b, [e], w, d, None, slaterWeightMin=1e-14, parallelization_mode=par)
    judge_rules(ctx, Probe(ctx, a=25.0), run, d1, d2, n2, m1, 1 + np.max(np.abs(m1)) + abs(e), "%s of d%d" % (kind, nd), 1e-6, nd=nd, kind=kind, par=par)
    if kind in ("ips", "ps", "xps"):
        full = spectra.getInversePhotoEmissionOperators(nBaths) if kind == "ips" else spectra.getPhotoEmissionOperators(nBaths, l=1 if kind == "xps" else 2)
        g = np.asarray(spectra.getSpectra(n, h, full, b, [e], np.array([FAR, -FAR]), d1, None, slaterWeightMin=1e-14))
        tot = moments(g[0, :, 0], g[0, :, 1], FAR + 1j * d1, -FAR + 1j * d1)[0].sum()
        want = {"ips": 10 - nd, "ps": nd, "xps": 6}[kind]
        ctx.close(tot, want, "the whole shell: occupied or empty states", rtol=1e-6, atol=1e-6, kind=kind, nd=nd)
        ctx.event("shell_totals")
    ctx.event("ion_" + kind)
    ctx.event("ions")


def w_simulate(ctx):
    """The files of a simulation, on a mesh of the whole axis."""
    s = sim.make(ctx, nds=(1, 2, 8, 9, 9), nbs=(0, 0, 1), kmax=2)
    p = sim.parameters(ctx)
    free = ctx.chance(0.6)
    if free:
        s.restr, s.rm = None, []
    x, wt = tan_mesh(4000, 20.0, 0.0)
    p["w"], p["wLoss"] = x, x
    p["wIn"] = p["wIn"][:1]
    p["delta"], p["deltaNIXS"], p["deltaRIXS"] = [ctx.rng.uniform(0.3, 0.6) for _ in range(3)]
    ctx.case(sorted(s.hop.items(), key=repr), repr(s.restr), sample=dict(nd=s.nd, baths=s.nb, limits=s.restr is not None))
    data, text = sim.run(s, p)
    info = dict(nd=s.nd, baths=s.nb, states=len(s.es), free=free)
    for k in ("PS", "XPS", "NIXS", "XAS", "RIXS", "PSthermal", "XPSthermal", "NIXSthermal", "XASthermal", "RIXSthermal"):
        judge_sign(ctx, -1j * data[k], 1, k, **info)
        ctx.event("datasets_observed")
    total = lambda a: np.tensordot(a, wt, axes=(-1, 0)) / np.pi
    ops = dict(XAS=[sim.spec.dipole(s.ix, 1, 2, e) for e in p["eps"]], NIXS=[sim.spec.nixs(s.ix, q, 2, 2, p["R"], p["R2"], p["r"]) for q in p["qs"]], XPS=sim.spec.photo(s.ix, 1, "a"))
    for k, o in ops.items():
        want = np.array([[fock.norm2(fock.apply_op(t, psi, s.rm)) for t in o] for psi in s.psis])
        ctx.close(total(data[k]), want, k + ": integral over all energies", rtol=2e-3, atol=1e-4, **info)
        ctx.event("file_sum_rules")
    ps = sim.spec.photo(s.ix, 2, "a"), sim.spec.photo(s.ix, 2, "c")
    want = np.array([[sum(fock.norm2(fock.apply_op(t, psi, s.rm)) for t in pair) for pair in zip(*ps)] for psi in s.psis])
    ctx.close(total(data["PS"]), want, "PS: integral over all energies", rtol=2e-3, atol=1e-4, **info)
    if free:
        ctx.close(total(data["PS"]), np.ones_like(want), "PS: occupied and empty part of every spin-orbital add up to one", rtol=2e-3, atol=1e-4, **info)
        ctx.event("complete_shells")
    ctx.event("simulations")


WORKLOADS = [W("simulate", w_simulate, 24, 400, cpu=200), W("ion", w_ion, 40, 500, cpu=200), W("green", w_green, 400, 9000), W("spectra", w_spectra, 200, 5000), W("rixs", w_rixs, 48, 1500), W("extreme", w_extreme, 200, 6000)]
