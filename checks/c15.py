"""C15: thermal averages are Boltzmann averages at the requested temperature."""
import contextlib
import io
import tempfile

import numpy as np

from checks import c14
from impurityModel.ed import average, finite
from vm import fock, gen, sim, spec
from vm.core import Skip, W

K_B = 8.617333262e-5


def boltzmann(es, T):
    with np.errstate(all="ignore"):
        x = np.exp(-(np.asarray(es, dtype=float) - np.min(es)) / (K_B * T))
    return x / x.sum()


def w_average(ctx):
    k = ctx.pick([1, 1, 2, 3, ctx.int(2, 40), ctx.int(2, 40), ctx.int(50, 300), ctx.pick([300, 1200, 3000])])
    T = ctx.pick([300, 300.0, 1, 1e-6, 1e6, 1e-3, ctx.rng.uniform(1, 2000), 10.0 ** ctx.rng.uniform(-6, 6), np.float64(77.5)])
    kt = K_B * T
    spread = ctx.pick([kt, 0.1 * kt, 5 * kt, 1.0, 100.0, 1e4])
    es = ctx.np.uniform(0, spread, k)
    if k > 2 and ctx.chance(0.4):
        es[ctx.int(0, k - 1)] = es[ctx.int(0, k - 1)]
    if ctx.chance(0.3):
        es = np.full(k, es[0])
    offset = ctx.pick([0, 0, -100.0, 1e3, -1e5])
    es = es + offset
    if ctx.chance(0.4):
        es = np.sort(es)
    if ctx.chance(0.1):
        es = np.round(es).astype(int)
    shape = ctx.pick([(), (), (), (1,), (3,), (2, 4), (2, 1, 3), (0,), (2, 2, 2, 2)])
    kind = ctx.pick(["float", "complex", "int", "bool"])
    scale = ctx.pick([1, 1e-8, 1e8])
    if kind == "float":
        obs = ctx.np.normal(size=(k,) + shape) * scale
    elif kind == "complex":
        obs = (ctx.np.normal(size=(k,) + shape) + 1j * ctx.np.normal(size=(k,) + shape)) * scale
    elif kind == "int":
        obs = ctx.np.integers(-5, 6, size=(k,) + shape)
    else:
        obs = ctx.np.integers(0, 2, size=(k,) + shape).astype(float)
    ctx.case(k, repr(es), T, obs.tobytes(), sample=dict(states=k, T=T, spread=float(spread), offset=offset, shape=shape, kind=kind))
    given_e = ctx.pick([es, list(es), tuple(es.tolist())])
    given_o = ctx.pick([obs, list(obs), obs.tolist() if shape != () or True else obs])
    if shape != () and isinstance(given_o, list) and given_o and not isinstance(given_o[0], np.ndarray):
        given_o = [np.array(x) for x in given_o]
    ke, ko = np.array(given_e), [np.array(x) for x in given_o]

    def call(e, o):
        with np.errstate(over="raise", invalid="raise", divide="raise"):
            return average.thermal_average(e, o) if default else average.thermal_average(e, o, T)

    default = T == 300 and ctx.chance(0.5)
    if not default and ctx.chance(0.3):
        got = average.thermal_average(given_e, given_o, T=T)
    else:
        got = call(given_e, given_o)
    x = boltzmann(es, T)
    want = np.tensordot(x, obs, axes=(0, 0))
    # rounding of the energies: relative error eps*|E|/kT of each weight
    amp = np.max(np.abs(obs)) if obs.size else 0.0
    tol = amp * (1e-9 + 1e-15 * (abs(offset) + spread) / kt * 4)
    tol = min(tol, 1e300)
    if tol < 0.05 * max(amp, 1e-300) or k == 1:
        ctx.close(got, want, "thermal average", rtol=0, atol=tol + 1e-300, T=T, energies=es[:8], states=k, shape=shape)
        ctx.event("averages_compared")
    ctx.check(np.all(np.isfinite(got)), "thermal average is not finite", got=got, T=T)
    if kind != "complex" and obs.size:
        ctx.check(np.all(got >= obs.min(axis=0) - 1e-9 * amp) and np.all(got <= obs.max(axis=0) + 1e-9 * amp), "thermal average is not a convex combination", got=got)
    ctx.check(np.array_equal(ke, np.array(given_e)) and all(np.array_equal(a, b) for a, b in zip(ko, given_o)), "arguments were modified")
    # order of the states, zero of energy
    p = ctx.np.permutation(k)
    ctx.close(call(np.asarray(es)[p], obs[p]), got, "average depends on the order of the states", rtol=0, atol=1e-10 * amp + 1e-300)
    s = ctx.pick([1.0, -64.0, 1024.0])
    t2 = amp * (1e-9 + 1e-15 * (abs(offset) + spread + abs(s)) / kt * 4)
    if t2 < 0.05 * amp:
        ctx.close(call(np.asarray(es) + s, obs), got, "average depends on the zero of energy", rtol=0, atol=t2 + 1e-300, shift=s, T=T)
        ctx.event("energy_shifts")
    if T <= 1e-3 and k > 1:
        ctx.event("low_temperatures")
    if np.max(x) < 0.9:
        ctx.event("mixed_ensembles")


def w_reject(ctx):
    k = ctx.int(1, 6)
    j = ctx.pick([x for x in range(0, 9) if x != k])
    es = ctx.np.normal(size=k)
    obs = ctx.np.normal(size=(j,) + ctx.pick([(), (3,), (2, 2)]))
    ctx.case(k, j, obs.shape)
    ctx.raises(lambda: average.thermal_average(es, obs, 300), "observables of a different number of states are accepted", states=k, observables=j)


NAMES = ["<E-E0>", "<N(3d)>", "<N(egDn)>", "<N(egUp)>", "<N(t2gDn)>", "<N(t2gUp)>", "<Lz(3d)>", "<Sz(3d)>", "<L^2(3d)>", "<S^2(3d)>"]


def w_printed(ctx):
    nb, labels, ix, n = c14.system(ctx)
    k = ctx.int(1, 6)
    ps = []
    for _ in range(k):
        p, _ = c14.state(ctx, nb, ix, n, ctx.pick(["multiplet", "spinflip", "random", "one"]))
        ps.append(gen.normalised(dict(list(p.items())[:8])))
    T = ctx.pick([None, 300, 30.0, 3000, 1e5, ctx.rng.uniform(5, 3000)])
    cut = ctx.pick([None, None, 10, 3, 1.0, 50])
    kt = K_B * (300 if T is None else T)
    c = 10 if cut is None else cut
    gaps = np.array([ctx.pick([0, ctx.rng.uniform(0, 1), ctx.rng.uniform(0, 4), ctx.rng.uniform(5, 20)]) for _ in range(k)])
    es = np.sort(np.concatenate([[0], np.cumsum(gaps[1:])])) * kt
    x = es / (c * kt)
    if np.any((np.abs(x - 1) < 1e-6)):
        raise Skip()
    es = es + ctx.pick([0, -123.0, 17.5])
    keep = (es - es[0]) < c * kt
    ctx.case(repr(es), repr(ps), T, cut, sample=dict(states=k, T=T, cutOff=cut, included=int(keep.sum())))
    psis = [fock.psi_to_bytes(p, n) for p in ps]
    before = [dict(p) for p in psis]
    kw = {}
    if T is not None:
        kw["T"] = T
    if cut is not None:
        kw["cutOff"] = cut
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if T is not None and cut is not None and ctx.chance(0.5):
            finite.printThermalExpValues(nb, es, psis, T, cut)
        else:
            finite.printThermalExpValues(nb, es, psis, **kw)
    ctx.check(psis == before, "the states were modified")
    text = out.getvalue()
    got = {}
    for line in text.splitlines():
        if "=" in line:
            a, b = line.split("=", 1)
            got[a.strip()] = b.strip()
    rows = []
    for e, p, kk in zip(es, ps, keep):
        if kk:
            r = c14.reference(ix, p)
            o = r["occ"]
            rows.append([e - es[0], r["N"], o[0], o[1], o[2], o[3], r["Lz"], r["Sz"], r["L2"], r["S2"]])
    want = boltzmann((es - es[0])[keep], kt / K_B) @ np.array(rows)
    for name, v in zip(NAMES, want):
        ctx.check(name in got, "a thermal expectation value is not printed", name=name, text=text)
        s = got[name]
        half = 0.5 * 10.0 ** -len(s.partition(".")[2])
        ctx.check(half <= 0.05, "printed with too few digits", line=s)
        ctx.check(abs(float(s) - v) <= half + 1e-6, "printed thermal expectation value", name=name, got=s, want=v, T=T, cutOff=cut, energies=es)
        ctx.event("printed_thermal_values")
    if 0 < (~keep).sum():
        ctx.event("states_above_cutoff", int((~keep).sum()))


def judge_report(ctx, out, es, wex, gs, row, T, info):
    """The thermal averages in the report of a run; row(i): exact expectation values of state i."""
    # the thermal averages: all states up to ten k_B T
    k = len(es)
    kt = K_B * T
    cut = 10 * kt
    inside = [i for i in range(k) if es[i] - es[0] < cut]
    whole = {i for grp in gs for i in grp}
    w = np.exp(-(es - es[0]) / kt)
    if not np.any(np.abs(wex - wex[0] - cut) < 1e-5) and all(i in whole for i in inside) and not any(set(grp) & set(inside) and not set(grp) <= set(inside) for grp in gs):
        v = np.array([[es[i] - es[0], *row(i)] for i in inside])
        want = w[inside] @ v / w[inside].sum()
        # within a multiplet the splitting is not resolved
        slack = max([np.ptp(w[grp]) for grp in gs], default=0) / w[inside].sum() * 60
        got = dict((a.strip(), b.strip()) for a, b in (l.split("=", 1) for l in out.splitlines() if l.startswith("<")))
        for name, y in zip(NAMES, want):
            ctx.check(name in got, "a thermal expectation value is not reported", name=name, **info)
            half = 0.5 * 10.0 ** -len(got[name].partition(".")[2])
            ctx.check(half <= 0.05 and abs(float(got[name]) - y) <= half + 1e-3 + slack, "reported thermal expectation value", name=name, got=got[name], want=y, T=T, **info)
            ctx.event("thermal_values")
        if len(inside) > 1 and np.max(w[inside][1:]) > 1e-2 and len(gs) > 1:
            ctx.event("excited_states_in_average")


def w_runs(ctx):
    """The averages which the programs print, for the temperature given by the user."""
    from checks import c20, c22

    cf = ctx.index % 4 == 0
    x = c22.given_parameters(ctx, cf, 100, kmax=9)
    x.g["T"] = x.o["T"] = T = ctx.pick([10.0, 120.0, 450.0, 2000.0, 20000.0, float(round(ctx.rng.uniform(20, 5000)))])
    c22.below_cut(x, x.o)
    with tempfile.TemporaryDirectory() as d:
        argv = c22.input_files(ctx, x, d)
        info = dict(program=x.module.rsplit(".")[-1], options=x.g)
        ctx.case(x.module, repr(sorted(x.g.items())), repr(sorted(x.h0.items(), key=repr)), sample=dict(info, dim=len(x.masks)))
        out = c22.run_start(x.module, argv, d)[-1]
    es = x.wex[:x.k]
    gs = c20.groups(es, x.wex, 2e-3)
    ref = {}
    for i in [i for g in gs for i in g]:
        p = {m: x.vex[a, i] for a, m in enumerate(x.masks) if abs(x.vex[a, i]) ** 2 > 1e-13}
        ref[i] = c14.reference(x.s.ix, p)
    row = lambda i: np.array([ref[i]["N"], *ref[i]["occ"], ref[i]["Lz"], ref[i]["Sz"], ref[i]["L2"], ref[i]["S2"]])
    judge_report(ctx, out, es, x.wex, gs, row, T, info)
    ctx.event("runs_at_given_temperature")


def w_datasets(ctx):
    """The thermally averaged data sets of a simulation follow from its per-state data at the requested temperature."""
    s = sim.make(ctx, nds=(1, 2, 9, 9), nbs=(0, 0, 1), kmax=5)
    p = sim.parameters(ctx)
    p["wLoss"], p["w"], p["wIn"] = p["wLoss"][:4], p["w"][:6], p["wIn"][:2]
    p["eps_in"], p["eps_out"], p["eps"] = p["eps_in"][:1], p["eps_out"][:1], p["eps"][:2]
    k = len(s.es)
    if ctx.chance(0.6):  # any energies: their Boltzmann weights matter here
        kt = K_B * p["T"]
        s.es = tuple(np.array([s.es[0]] * k) + np.sort(ctx.np.uniform(0, ctx.pick([1, 3, 8]) * kt, k)))
    ctx.case(s.es, p["T"], k, s.nd, s.nb, sample=dict(T=p["T"], states=k, nd=s.nd, nb=s.nb, gaps_in_kT=[(e - s.es[0]) / (K_B * p["T"]) for e in s.es]))
    data, text = sim.run(s, p)
    x = boltzmann(s.es, p["T"])
    for name in ("PS", "XPS", "XAS", "NIXS", "RIXS"):
        ctx.check(name in data and name + "thermal" in data, "spectrum %s or its thermal average is missing" % name, have=sorted(data))
        a, b = data[name], data[name + "thermal"]
        ctx.check(a.shape[0] == k, "%s: wrong number of states" % name)
        want = np.tensordot(x, a, axes=(0, 0))
        ctx.close(b, want, "thermally averaged %s" % name, rtol=1e-7, atol=1e-12, T=p["T"], weights=x)
        ctx.event("thermal_datasets")
    if x.max() < 0.95:
        ctx.event("mixed_datasets")


WORKLOADS = [W("average", w_average, 6000, 100000), W("reject", w_reject, 100, 500), W("printed", w_printed, 500, 5000), W("datasets", w_datasets, 48, 900), W("runs", w_runs, 150, 2000, cpu=300)]
