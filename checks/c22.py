"""C22: a simulation run writes complete, correct and mutually consistent files."""
import contextlib
import io
import json
import os
import pickle
import re
import runpy
import sys
import tempfile
from collections import OrderedDict

import numpy as np

from vm import atomic, fock, gen, sim, spec
from vm.consts import REPO
from vm.core import Skip, W
from checks import c07, c13, c20

SPECTRA = ("PS", "XPS", "NIXS", "XAS", "RIXS")


def judge_layout(ctx, data, text, T, es, meshes, /, **info):
    """Relations between the datasets and the other files."""
    w, wl, win = meshes
    for name in SPECTRA:
        ctx.check(name in data and name + "thermal" in data, "a spectrum is missing in the HDF5 file", spectrum=name, got=sorted(data), **info)
        ctx.check(len(data[name]) == len(es), "not exactly one entry per eigenstate", spectrum=name, got=len(data[name]), want=len(es), **info)
        want = spec.thermal(es, data[name], T)
        ctx.close(data[name + "thermal"], want, "thermal average of %s" % name, rtol=1e-9, atol=1e-12, T=T, es=es, **info)
        ctx.event("thermal_datasets")
    for name, mesh in (("PS", w), ("XPS", w), ("NIXS", wl), ("XAS", w)):
        t = data[name + "thermal"]
        f = text.get(name + ".dat")
        ctx.check(f is not None, "missing text file", file=name + ".dat", got=sorted(text), **info)
        ctx.check(f.shape == (len(mesh), t.shape[0] + 2), "layout of %s.dat" % name, got=f.shape, want=(len(mesh), t.shape[0] + 2), **info)
        want = np.vstack([mesh, t.sum(axis=0), t]).T
        ctx.close(f, want, "%s.dat differs from the HDF5 file" % name, rtol=1e-7, atol=5.1e-5, **info)
        ctx.event("text_files")
    t = data["RIXSthermal"]
    f = text.get("RIXS.bin")
    ctx.check(f is not None, "missing file RIXS.bin", got=sorted(text), **info)
    ctx.check(f.size == (len(wl) + 1) * (len(win) + 1), "size of RIXS.bin", got=f.size, **info)
    f = f.reshape(len(wl) + 1, len(win) + 1)
    ctx.check(f[0, 0] == len(win), "RIXS.bin: number of columns", got=f[0, 0], want=len(win), **info)
    ctx.close(f[0, 1:], win, "RIXS.bin: incoming energies", rtol=1e-6, atol=1e-6, **info)
    ctx.close(f[1:, 0], wl, "RIXS.bin: energy losses", rtol=1e-6, atol=1e-6, **info)
    ctx.close(f[1:, 1:], t.sum(axis=(0, 1)).T, "RIXS.bin differs from the HDF5 file", rtol=1e-5, atol=1e-7, **info)
    ctx.event("binary_files")


def w_simulate(ctx):
    s = sim.make(ctx, nds=(1, 2, 8, 9, 9), nbs=(0, 0, 1, 1, 2) if ctx.thorough else (0, 0, 0, 1), kmax=3)
    many = ctx.chance(0.2)
    p = sim.parameters(ctx, many)
    if many:
        ctx.event("long_lists")
    ctx.case(sorted(s.hop.items(), key=repr), repr(p), sample=dict(nd=s.nd, baths=s.nb, states=len(s.es), T=p["T"], polarisations=(len(p["eps"]), len(p["eps_in"]), len(p["eps_out"])), meshes=[len(p[k]) for k in ("w", "wLoss", "wIn")]))
    keep = repr((s.hop, s.es, s.psis, p, s.restr))
    data, text = sim.run(s, p)
    ctx.check(keep == repr((s.hop, s.es, s.psis, p, s.restr)), "arguments were modified")
    info = dict(nd=s.nd, baths=s.nb)
    for name, r in sim.reference(s, p).items():
        ctx.event("exact_values", sim.compare(ctx, name, data[name], r, **info))
    judge_layout(ctx, data, text, p["T"], s.es, (p["w"], p["wLoss"], p["wIn"]), **info)
    if len(s.es) > 1:
        ctx.event("several_states")
    ctx.event("simulations")


# ---- the programs

DEFAULTS = dict(nBaths=(0, 10), nValBaths=(0, 10), n0imps=(6, 8), dnTols=(0, 2), dnValBaths=(0, 2), dnConBaths=(0, 0), Fdd=(7.5, 0, 9.9, 0, 6.6), Fpp=(0.0, 0.0, 0.0), Fpd=(8.9, 0, 6.8), Gpd=(0.0, 5.0, 0, 2.8),
                xi_2p=11.629, xi_3d=0.096, chargeTransferCorrection=1.5, hField=(0, 0, 0.0001), nPsiMax=5, nPrintSlaterWeights=3, tolPrintOccupation=0.5, T=300, energy_cut=10, delta=0.2, deltaRIXS=0.050, deltaNIXS=0.100)


def number(x):
    return np.format_float_positional(x, trim="0") if isinstance(x, float) else str(x)


def options(ctx, cf):
    """(given options, all options)."""
    digits = ctx.pick([2, 3, 3, 6, 15])
    F = lambda a, b: round(ctx.rng.uniform(a, b), digits)
    Z = lambda a, b: ctx.pick([0, 0.0]) if ctx.chance(0.12) else F(a, b)
    g = {}
    if cf:
        nb, nv = 10, 10
        if ctx.chance(0.25):
            nb = 20
        g["nBaths"], g["nValBaths"] = (0, nb), (0, 10)
        nd = ctx.pick([1, 8, 9, 9, 8])
        dv = ctx.pick([0, 0, 1]) if nd == 9 else 0
        dc = 0
        if nb == 20 and nd == 1:
            dc = ctx.pick([0, 1])
    else:
        nb = ctx.pick([0, 0, 1, 1, 2, 3])
        nv = ctx.int(0, nb)
        g["nBaths"], g["nValBaths"] = (0, nb), (0, nv)
        nd = ctx.pick([1, 2, 8, 9, 9]) if nb == 0 else ctx.pick([1, 9, 9, 8])
        dv, dc = min(nv, ctx.pick([0, 1, 1, 2])), min(nb - nv, ctx.pick([0, 1, 1]))
    g["n0imps"] = (6, nd)
    g["dnValBaths"], g["dnConBaths"] = (0, dv), (0, dc)
    g["dnTols"] = (0, ctx.pick([0, 1, 2]))
    opt = dict(Fdd=(Z(0, 9), 0, F(1, 11), 0, F(1, 8)), Fpp=(Z(0, 5), 0, Z(0, 5)), Fpd=(Z(0, 9), 0, Z(1, 8)), Gpd=(0, Z(0.5, 6), 0, Z(0.5, 4)), xi_2p=Z(1, 12), xi_3d=Z(0.02, 0.3), chargeTransferCorrection=Z(-2, 3),
               hField=ctx.pick([(0, 0, 0), (0, 0, F(0.01, 0.1)), (F(-0.1, 0.1), F(-0.1, 0.1), F(-0.1, 0.1)), (F(0.01, 0.1), 0, 0), (0, F(-0.1, -0.01), 0)]),
               nPrintSlaterWeights=ctx.pick([0, 1, 5]), tolPrintOccupation=ctx.pick([0.0, 0.1, 2.0]), T=ctx.pick([1, 10, 77.0, 300, 1500, 5000.0]), energy_cut=ctx.pick([1, 5.5, 10, 20]),
               delta=F(0.15, 0.5), deltaRIXS=F(0.04, 0.2), deltaNIXS=F(0.05, 0.3), nPsiMax=ctx.int(1, 5 if ctx.thorough else 3))
    for k, v in opt.items():
        if ctx.chance(0.75) or k == "nPsiMax" and not ctx.thorough:
            g[k] = v
    full = dict(DEFAULTS, **g)
    return g, full, (nb, nv, nd, dv, dc)


def command_line(ctx, g):
    out = []
    items = list(g.items())
    ctx.rng.shuffle(items)
    for k, v in items:
        out.append("--" + k)
        out += [number(x) for x in v] if isinstance(v, tuple) else [number(v)]
    return out


def stored_h0(ctx, nb, nv):
    """A one-body operator in label form with crystal field and bath."""
    F = ctx.rng.uniform
    m = np.kron(np.eye(2), atomic.cubic_field(F(0.2, 1.5))) + np.eye(10) * F(-2, 2)
    if ctx.chance(0.5):
        a = ctx.np.normal(size=(10, 10)) * 0.1
        m = m + a + a.T
    op = atomic.op_of_matrix(atomic.shell(2), m)
    for b in range(nb):
        x = (2, b)
        op[((x, "c"), (x, "a"))] = F(-5, -2) if b < nv else F(1, 4)
        for y in ctx.rng.sample(atomic.shell(2), 3):
            v = ctx.coef("complex", lo=0.2, hi=1.2)
            op[((x, "c"), (y, "a"))] = v
            op[((y, "c"), (x, "a"))] = np.conj(v)
    for p in list(op):
        if (p[1][0], p[0][0]) != (p[0][0], p[1][0]):
            q = ((p[1][0], "c"), (p[0][0], "a"))
            op[q] = np.conj(op[p])
    for p in op:
        if p[0][0] == p[1][0]:
            op[p] = float(np.real(op[p]))
    return op


def run_program(module, argv, d):
    """(HDF5 datasets, other files, record, printed text) of a run of one of the programs in directory d."""
    cwd, av = os.getcwd(), sys.argv
    out = io.StringIO()
    os.chdir(d)
    sys.argv = [module] + argv
    old = sys.modules.pop(module, None)
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_module(module, run_name="__main__", alter_sys=True)
        data, text = sim.read(d)
        with np.load("data.npz", allow_pickle=True) as f:
            rec = {k: f[k] for k in f.files}
    finally:
        os.chdir(cwd)
        sys.argv = av
        if old is not None:
            sys.modules[module] = old
    return data, text, rec, out.getvalue()


def run_start(module, argv, d):
    """The program up to the spectra, which are replaced by nothing when possible (they take most of the time)."""
    from impurityModel.ed import spectra

    def instead(*args, **kw):
        for x in list(args) + list(kw.values()):
            if hasattr(x, "close") and hasattr(x, "create_dataset"):
                x.close()

    keep = getattr(spectra, "simulate_spectra", None)
    try:
        if keep is not None:
            spectra.simulate_spectra = instead
        return run_program(module, argv, d)
    finally:
        if keep is not None:
            spectra.simulate_spectra = keep


def given_parameters(ctx, cf, limit, kmax=None):
    """A complete input of one of the programs and the exact solution."""
    g, o, (nb, nv, nd, dv, dc) = options(ctx, cf)
    if kmax:
        g["nPsiMax"] = o["nPsiMax"] = ctx.int(1, kmax)
    masks, n = basis(o)
    if not 4 <= len(masks) <= limit:
        raise Skip()
    if o["nPsiMax"] > len(masks) - 2:
        g["nPsiMax"] = o["nPsiMax"] = len(masks) - 2
    given = None
    if cf:
        given = {k: round(ctx.rng.uniform(-1, 1), 3) + v for k, v in c13.NIO.items() if ctx.chance(0.6)}
        labels, m = c13.cf_matrix(dict(c13.NIO, **given), nb == 20)
        h0 = atomic.op_of_matrix(labels, m)
    else:
        h0 = stored_h0(ctx, nb, nv)
    x = solved(o, h0, masks, n)
    up = [y for y in x.wex[1:x.k] - x.wex[0] if y > 2e-3]
    if up and ctx.chance(0.4):  # a level close to the cut
        g["energy_cut"] = o["energy_cut"] = float((ctx.pick(up) + ctx.pick([-1, 1]) * ctx.pick([3e-5, 2e-4, 1e-3])) / (spec.K_B * o["T"]))
    below_cut(x, o)
    x.module = "impurityModel.ed.get_spectra_using_CF" if cf else "impurityModel.ed.get_spectra"
    x.g, x.given, x.cf = g, given, cf
    return x


def pair(o, k):
    return OrderedDict(zip((1, 2), o[k]))


def basis(o):
    return c07.reference(*[pair(o, k) for k in ("nBaths", "nValBaths", "dnValBaths", "dnConBaths", "dnTols", "n0imps")])


def solved(o, h0, masks, n):
    """Exact eigenstates for the options o and the one-body Hamiltonian h0; the Hamiltonian is assembled independently."""
    x = sim.System()
    nb, nv, nd, dv, dc = o["nBaths"][1], o["nValBaths"][1], o["n0imps"][1], o["dnValBaths"][1], o["dnConBaths"][1]
    sc = [o[k] for k in ("Fdd", "Fpp", "Fpd", "Gpd")]
    op = c13.atomic_part(sc, [o["xi_2p"], o["xi_3d"]], [pair(o, "n0imps"), o["chargeTransferCorrection"]], o["hField"])
    op = fock.add_ops(op, h0)
    nBaths = pair(o, "nBaths")
    ix = {x: i for i, x in enumerate(gen.labels(nBaths))}
    s = sim.System()
    s.n, s.ix, s.nBaths = n, ix, nBaths
    s.hop = atomic.relabel(op, ix)
    s.op = fock.Op(s.hop)
    dorb = [ix[x] for x in atomic.shell(2)]
    s.restr = {frozenset(dorb): (nd - 1, nd + o["dnTols"][1] + 1), frozenset(ix[(2, b)] for b in range(nv)): (nv - dv, nv), frozenset(ix[(2, b)] for b in range(nv, nb)): (0, dc)}
    if nv == 0 or nb == nv:  # no orbitals at all: nothing to restrict
        s.restr = {k: v for k, v in s.restr.items() if k}
    s.rm = fock.restr_masks(s.restr)
    h = fock.matrix(s.op, masks)
    x.wex, x.vex = np.linalg.eigh(h)
    x.k = o["nPsiMax"]
    x.o, x.s, x.n, x.masks, x.h0 = o, s, n, masks, h0
    return x


def below_cut(x, o):
    x.cut = o["energy_cut"] * spec.K_B * o["T"]
    if np.min(np.abs(x.wex - x.wex[0] - x.cut)) < 1e-5:
        raise Skip()
    x.es = x.wex[:x.k]
    x.sel = [i for i in range(x.k) if x.es[i] - x.es[0] < x.cut]


def input_files(ctx, x, d):
    """Writes the input files into directory d; returns the arguments."""
    element = ctx.pick(["Ni", "Co", "Fe", "Mn"])
    x.f0 = os.path.join(d, "in_cf.json" if x.cf else "in_h0.pickle")
    if x.cf:
        json.dump(x.given, open(x.f0, "w"))
    else:
        with open(x.f0, "wb") as fh:
            pickle.dump(x.h0, fh)
    frad = os.path.join(REPO, "radialOrbitals", "%s3d.dat" % element)
    if ctx.chance(0.5):
        r = np.linspace(0.001, 6, ctx.int(60, 150))
        a = ctx.rng.uniform(0.8, 2)
        R = r**3 * np.exp(-a * r)
        frad = os.path.join(d, "in_radial.dat")
        np.savetxt(frad, np.array([r, R / np.sqrt(np.sum(R**2) * (r[1] - r[0]))]).T, header="r R(r)")
    x.frad = frad
    return [x.f0, frad] + command_line(ctx, x.g)


def w_program(ctx):
    cf = ctx.index % 3 == 0
    x = given_parameters(ctx, cf, 160 if ctx.thorough else 90)
    with tempfile.TemporaryDirectory() as d:
        argv = input_files(ctx, x, d)
        info = dict(program=x.module.rsplit(".")[-1], options=x.g, radial=os.path.basename(x.frad))
        ctx.case(x.module, repr(sorted(x.g.items())), repr(sorted(x.h0.items(), key=repr)), sample=dict(info, dim=len(x.masks), states=len(x.sel)))
        data, text, rec, out = run_program(x.module, argv, d)
        rad = np.loadtxt(x.frad).T
    judge_program(ctx, x, rad, data, text, rec, out, info)


def judge_start(ctx, x, rad, data, rec, out, info):
    o, s, n, masks, es, sel, cut = x.o, x.s, x.n, x.masks, x.es, x.sel, x.cut
    # what was read and what is written about the run
    ctx.close(data["E"], es, "energies in the HDF5 file", rtol=0, atol=2e-6, **info)
    ctx.close(data["r"], rad[0], "radial mesh in the HDF5 file", rtol=1e-12, atol=0, **info)
    ctx.close(data["RiNIXS"], rad[1], "radial function in the HDF5 file", rtol=1e-12, atol=0, **info)
    ctx.close(data["RjNIXS"], rad[1], "radial function in the HDF5 file", rtol=1e-12, atol=0, **info)
    recorded(ctx, rec, o, s, x.f0, cut, info)
    printed(ctx, out, n, len(masks), len(sel), info)
    w, wl, win = data["w"], data["wLoss"], data["wIn"]
    for name, y in (("w", w), ("wLoss", wl), ("wIn", win)):
        ctx.check(y.ndim == 1 and len(y) > 1 and np.all(np.diff(y) > 0), "energy mesh in the HDF5 file", name=name, **info)
    ctx.close(data["qsNIXS"], np.array([[2, 2, 2], [7, 7, 7]]) / np.sqrt(3), "momentum transfers", rtol=1e-12, atol=0, **info)


def w_start(ctx):
    """What a run records about its input and the eigenstates: many inputs, without the spectra."""
    cf = ctx.index % 4 == 0
    x = given_parameters(ctx, cf, 130, kmax=9)
    with tempfile.TemporaryDirectory() as d:
        argv = input_files(ctx, x, d)
        info = dict(program=x.module.rsplit(".")[-1], options=x.g, radial=os.path.basename(x.frad))
        ctx.case(x.module, repr(sorted(x.g.items())), repr(sorted(x.h0.items(), key=repr)), sample=dict(info, dim=len(x.masks), states=len(x.sel)))
        data, text, rec, out = run_start(x.module, argv, d)
        rad = np.loadtxt(x.frad).T
    judge_start(ctx, x, rad, data, rec, out, info)
    ctx.event("started_runs")
    ctx.event("started_CF" if cf else "started_stored")


def judge_program(ctx, x, rad, data, text, rec, out, info):
    cf = x.cf
    o, s, n, masks, wex, vex, es, sel, cut, k = x.o, x.s, x.n, x.masks, x.wex, x.vex, x.es, x.sel, x.cut, x.k
    T = o["T"]
    judge_start(ctx, x, rad, data, rec, out, info)
    w, wl, win = data["w"], data["wLoss"], data["wIn"]
    judge_layout(ctx, data, text, T, data["E"][sel], (w, wl, win), **info)
    # the spectra on a part of the meshes
    i1 = sorted(ctx.rng.sample(range(len(w)), 30))
    i2 = sorted(ctx.rng.sample(range(len(wl)), 30))
    i3 = sorted(ctx.rng.sample(range(len(win)), 2))
    eps = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    p = dict(w=w[i1], wLoss=wl[i2], wIn=win[i3], delta=o["delta"], deltaNIXS=o["deltaNIXS"], deltaRIXS=o["deltaRIXS"], eps=eps, eps_in=eps[:], eps_out=eps, qs=data["qsNIXS"], R=rad[1], r=rad[0])
    ein = ctx.int(0, 2)
    p["eps_in"] = [eps[ein]]
    s.es = [float(x) for x in es[sel]]
    s.psis = [{m: vex[a, i] for a, m in enumerate(masks) if abs(vex[a, i]) ** 2 > 1e-12} for i in sel]
    gs = [x for x in c20.groups(s.es, wex, 2e-3)]
    if any(len(x) > 1 for x in gs):
        ctx.event("multiplets")
    if len(sel) < k:
        ctx.event("states_above_the_cut")
    ref = sim.reference(s, p)
    part = dict(PS=data["PS"][..., i1], XPS=data["XPS"][..., i1], XAS=data["XAS"][..., i1], NIXS=data["NIXS"][..., i2], RIXS=data["RIXS"][:, ein:ein + 1][..., i3, :][..., i2])
    for name, (a, t) in ref.items():
        b = part[name]
        ctx.check(b.shape == a.shape, "shape of dataset %s" % name, got=b.shape, want=a.shape, **info)
        for x in gs:
            u, v, tt = b[x].sum(axis=0), a[x].sum(axis=0), np.broadcast_to(t, a.shape)[x].sum(axis=0)
            lim = 4 * tt + 2e-3 * np.nanmax(np.abs(v), initial=0) + 1e-6
            ok = np.isfinite(v) & np.isfinite(lim)
            bad = ok & ~(np.abs(u - np.where(ok, v, 0)) <= np.where(ok, lim, 0))
            if np.any(bad):
                j = tuple(int(q[0]) for q in np.nonzero(bad))
                ctx.check(False, "%s in the HDF5 file differs from the exact spectrum" % name, multiplet=x, at=j, got=u[j], want=v[j], tol=lim[j], n_bad=int(bad.sum()), **info)
            ctx.event("exact_values", int(ok.sum()))
            ctx.counters["oracle_comparisons"] += int(ok.sum())
    ctx.event("program_runs")
    ctx.event("program_CF" if cf else "program_stored")


def same(a, b):
    """A recorded value (possibly wrapped by numpy) equals the given one."""
    if isinstance(a, np.ndarray) and a.dtype == object:
        a = a.item() if a.shape == () else list(a)
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and dict(a) == dict(b)
    try:
        return np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=1e-12, atol=0)
    except (TypeError, ValueError):
        return str(a) == str(b)


def recorded(ctx, rec, o, s, f0, cut, info):
    want = {k: dict(pair(o, k)) for k in ("nBaths", "nValBaths", "n0imps", "dnTols", "dnValBaths", "dnConBaths")}
    want.update({k: o[k] for k in ("Fdd", "Fpp", "Fpd", "Gpd", "xi_2p", "xi_3d", "chargeTransferCorrection", "hField", "nPsiMax", "T", "delta", "deltaRIXS", "deltaNIXS")})
    want.update(ls=(1, 2), n_spin_orbitals=s.n, epsilons=np.eye(3), epsilonsRIXSin=np.eye(3), epsilonsRIXSout=np.eye(3))
    name = [k for k in ("h0_filename", "h0_CF_filename") if k in rec]
    ctx.check(name and str(rec[name[0]]) == f0, "recorded file name", got=[rec[k] for k in name], want=f0, **info)
    for k, v in want.items():
        ctx.check(k in rec, "a parameter is not recorded", parameter=k, **info)
        ctx.check(same(rec[k], v), "a recorded parameter differs from the given one", parameter=k, got=rec[k], want=v, **info)
        ctx.event("recorded_parameters")
    ctx.check("energy_cut" in rec and np.isclose(float(rec["energy_cut"]), cut, rtol=1e-6), "recorded energy cut (in eV)", got=rec.get("energy_cut"), want=cut, **info)
    r = rec["restrictions"].item()
    ctx.check({frozenset(int(i) for i in k): tuple(v) for k, v in r.items() if k} == {k: tuple(v) for k, v in s.restr.items() if k}, "recorded occupation limits", got=r, want=s.restr, **info)
    got, w = atomic.canonical(rec["hOp"].item(), 1e-13), atomic.canonical(s.hop, 1e-13)
    ctx.close_dict(got, w, "recorded Hamiltonian differs from the specified one", rtol=1e-10, atol=1e-10, **info)


def printed(ctx, out, n, dim, sel, info):
    for pattern, want in ((r"#spin-orbitals: *(\d+)", n), (r"#basis states *= *(\d+)", dim), (r"Consider (\d+) eigenstates", sel)):
        m = re.search(pattern, out)
        if m:
            ctx.check(int(m.group(1)) == want, "printed number", pattern=pattern, got=m.group(1), want=want, **info)
            ctx.event("printed_numbers")


WORKLOADS = [W("program", w_program, 14, 240, cpu=300, first=True), W("start", w_start, 420, 6000, cpu=300), W("simulate", w_simulate, 40, 1200)]
