"""C20: results are the same for any number of MPI processes and any timing."""
import os

import numpy as np

from vm import fock, gen, mpi, sim, spec, systems
from vm.core import Skip, W
from checks import c17, c18

DELAYS = [None, (0.3, 0.002), (0.1, 0.01)]
DELAYS_LONG = [None, (0.02, 0.002)]


def ranks_of(ctx):
    return ctx.pick([1, 2, 3, 4, 5, 6, 7, 8, 2, 3, 4])


def degenerate(ctx):
    """A core-valence system with exact degeneracies (spin copies or a d shell without field)."""
    s = systems.random_core_system(ctx, n_core_max=2, n_val_max=4, complex_ok=ctx.chance(0.5))
    if ctx.chance(0.3):
        return s
    # two spin copies of the one-body part, coupled by a density-density interaction
    n = s.n
    h = {}
    for p, v in s.h.items():
        if len(p) == 2:
            for k in (0, n):
                h[tuple((i + k, a) for i, a in p)] = v
    u = ctx.rng.uniform(0.5, 2)
    for i in s.val:
        h[((i, "c"), (i + n, "c"), (i + n, "a"), (i, "a"))] = u
    s.h = h
    dup = lambda t: {tuple((i + k, a) for i, a in p): v for k in (0, n) for p, v in t.items()}
    s.t_in, s.t_out = [dup(t) for t in s.t_in], [dup(t) for t in s.t_out]
    s.core = s.core + [i + n for i in s.core]
    s.val = s.val + [i + n for i in s.val]
    s.n_core, s.n_val, s.n = 2 * s.n_core, ctx.int(1, min(3, len(s.val) - 1)), 2 * n
    s.restr = {frozenset(s.val): (s.n_val - 1, s.n_val + 1)} if ctx.chance(0.5) else None
    s.rm = fock.restr_masks(s.restr)
    s.fop = fock.Op(h)
    return s


def groups(es, w, tol=1e-6):
    """Complete multiplets among the calculated states; w: all exact energies."""
    out, i = [], 0
    while i < len(es):
        j = i
        while j + 1 < len(es) and es[j + 1] - es[j] < tol:
            j += 1
        if int(np.sum(np.abs(w - es[i]) < 10 * tol)) == j - i + 1:
            out.append(list(range(i, j + 1)))
        i = j + 1
    return out


def summed(ctx, got, g, t, gs, msg, /, **info):
    """Sums over complete multiplets do not depend on the choice of eigenvectors."""
    n = 0
    for m in gs:
        a, b, c = got[m].sum(axis=0), g[m].sum(axis=0), t[m].sum(axis=0)
        for k in np.ndindex(*c.shape):
            if np.isfinite(c[k]):
                ctx.close(a[k], b[k], msg, rtol=0, atol=5 * c[k] + 1e-7, multiplet=m, at_operator=k, **info)
                n += 1
    return n


def w_pipeline(ctx):
    """Eigenstates and then spectra and maps, every rank with its own eigenstates (also degenerate ones)."""
    ranks = ranks_of(ctx)
    tasks, wants = [], []
    tries = 0
    while len(tasks) < 3:
        tries += 1
        if tries > 200:
            raise Skip()
        s = degenerate(ctx)
        basis = s.ground_masks()
        if not 5 <= len(basis) <= 120:
            continue
        ctx.rng.shuffle(basis)
        h = fock.matrix(s.fop, basis)
        w = np.linalg.eigvalsh(h)
        k = ctx.int(2, min(8, len(basis) - 2))
        solver = ctx.pick(["Lanczos", "Lanczos", "full"])
        ops = c17.transitions(ctx, s, 3)
        ww, delta = c17.params(ctx, s)
        par = ctx.pick(["H_build", "eigen_states"])
        rix = None
        if ctx.chance(0.5):
            win, wl, d1, d2 = c18.params(ctx)
            rix = dict(tin=s.t_in[:2], tout=s.t_out[:2], win=win[:ctx.int(1, 3)], wloss=wl, d1=max(d1, 0.3), d2=d2, par=ctx.pick(c18.PARS))
            k = min(k, 4)
        tasks.append(("pipeline", dict(n=s.n, op=s.h, basis=[fock.to_bytes(m, s.n) for m in basis], k=k, solver=solver, tops=ops, w=ww, delta=delta, restrictions=s.restr, par=par, cut=1e-13, rix=rix)))
        wants.append((s, basis, h, w, k, ops, ww, delta, par, rix))
    ctx.case(ranks, repr(tasks), sample=dict(ranks=ranks, tasks=len(tasks), dims=[len(x[1]) for x in wants]))
    out = mpi.run(ctx, tasks, ranks, delay=ctx.pick(DELAYS_LONG))
    for (s, basis, h, w, k, ops, ww, delta, par, rix), res in zip(wants, out):
        info = dict(s.describe(), ranks=ranks, par=par)
        es, psis = res[0][0], [fock.psi_from_bytes(p, s.n) for p in res[0][1]]
        index = {m: i for i, m in enumerate(basis)}
        v = np.array([fock.vec(p, index) for p in psis]).T
        ctx.close(np.array(es), w[:len(es)], "energies", rtol=0, atol=1e-7 * (1 + np.max(np.abs(w))), **info)
        r = np.linalg.norm(h @ v - v * np.array(es), axis=0)
        ctx.check(np.max(r) < 1e-4 * (1 + np.max(np.abs(w))), "not an eigenstate", residual=r, **info)
        gs = groups(es, w)
        if any(len(x) > 1 for x in gs):
            ctx.event("degenerate_multiplets")
        g, t = c17.reference(ctx, s, ops, psis, es, ww, delta, 1e-13, [])
        if rix:
            gm, tm = c18.reference(s, rix["tin"], rix["tout"], psis, es, rix["win"], rix["wloss"], rix["d1"], rix["d2"], 1e-13, 1e-5, [])
        for q in range(ranks):
            ctx.close(np.array(res[q][0]), np.array(es), "energies of a rank differ", rtol=0, atol=1e-9 * (1 + np.max(np.abs(w))), rank=q, **info)
            a = res[q][2]
            ctx.check(a.shape == g.shape and np.all(np.isfinite(a)), "incomplete spectra on a rank", got=a.shape, want=g.shape, rank=q, **info)
            ctx.close(a, res[0][2], "the ranks have different spectra", rtol=1e-6, atol=1e-9, rank=q, **info)
            ctx.event("spectra_compared", summed(ctx, a, g, t, gs, "spectra of a multiplet differ from the exact ones", rank=q, **info))
            if rix:
                a = res[q][3]
                ctx.check(a.shape == gm.shape and np.all(np.isfinite(a)), "incomplete maps on a rank", got=a.shape, want=gm.shape, rank=q, **info)
                ctx.close(a, res[0][3], "the ranks have different maps", rtol=1e-4, atol=1e-9, rank=q, **info)
                ctx.event("maps_compared", summed(ctx, a, gm, 2 * tm + 1e-4 * np.max(np.abs(gm), axis=4), gs, "maps of a multiplet differ from the exact ones", rank=q, mode=rix["par"], **info))
            ctx.event("ranks_compared")


def w_library(ctx):
    """The same tasks with different numbers of processes: every rank has the same, complete result."""
    tasks, wants = [], []
    while len(tasks) < 8:
        s = systems.random_core_system(ctx)
        es, psis = s.states(ctx, ctx.pick([1, 1, 2, 5]))
        bp = [fock.psi_to_bytes(p, s.n) for p in psis]
        ops = c17.transitions(ctx, s)
        w, delta = c17.params(ctx, s)
        kind = ctx.pick(["spectra", "spectra", "green", "matrix", "expand", "eigen"])
        if kind == "spectra":
            g, t = c17.reference(ctx, s, ops, psis, es, w, delta, 1e-12, [])
            tasks.append(("spectra", dict(n=s.n, op=s.h, tops=ops, psis=bp, es=es, w=w, delta=delta, restrictions=s.restr, par=ctx.pick(["H_build", "eigen_states"]), cut=1e-12)))
            wants.append((kind, (g, t)))
        elif kind == "green":
            tasks.append(("green", dict(n=s.n, e=es[0], psi=bp[0], op=s.h, omega=w, delta=delta, krylov=60, restrictions=s.restr, mode="sparse", par="H_build")))
            wants.append((kind, None))
        elif kind == "matrix":
            tasks.append(("matrix", dict(n=s.n, op=s.h, basis=[fock.to_bytes(m, s.n) for m in s.ground_masks()][:60], mode=ctx.pick(["dense_MPI", "sparse_MPI"]))))
            wants.append((kind, None))
        elif kind == "eigen":
            basis = s.ground_masks()[:60]
            if len(basis) < 5:
                continue
            tasks.append(("eigensystem", dict(n=s.n, op=s.h, basis=[fock.to_bytes(m, s.n) for m in basis], k=2, mode=ctx.pick(["Lanczos", "full"]), cut=1e-12)))
            wants.append((kind, np.linalg.eigvalsh(fock.matrix(s.fop, basis))[:2]))
        else:
            start = list(psis[0])[:1]
            tasks.append(("expand", dict(n=s.n, op=s.h, basis0=[fock.to_bytes(m, s.n) for m in start], restrictions=s.restr, stores=[{} for _ in range(8)], mode="H_build")))
            wants.append((kind, set(fock.closure(s.h, start, s.rm)[0])))
    a, b = ctx.pick([(1, 2), (1, 3), (2, 5), (3, 4), (1, 8), (4, 6), (2, 7), (1, 6)])
    ctx.case(a, b, repr(tasks), sample=dict(ranks=(a, b), tasks=[t[0] for t in tasks]))
    outs = [(k, mpi.run(ctx, tasks, k, delay=ctx.pick(DELAYS))) for k in (a, b)]
    ref = outs[0][1]
    for i, ((name, kw), (kind, want)) in enumerate(zip(tasks, wants)):
        for k, out in outs:
            for r in range(k):
                x, y = out[i][r], ref[i][0]
                info = dict(task=name, ranks=k, rank=r, other_ranks=a)
                if kind == "spectra":
                    c17.judge(ctx, x, want[0], want[1], "spectra", **info)
                elif kind == "green":
                    ctx.close(x[0], y[0], "Green's function depends on the number of processes", rtol=1e-6, atol=1e-9, **info)
                elif kind == "matrix":
                    ctx.close(x, y, "matrix depends on the number of processes", rtol=1e-12, atol=1e-13, **info)
                elif kind == "eigen":
                    ctx.close(x[0], want, "energies depend on the number of processes", rtol=1e-7, atol=1e-7, **info)
                else:
                    ctx.equal(x[0][0], y[0][0], "active space depends on the number of processes", **info)
                    ctx.check({fock.from_bytes(m, kw["n"]) for m in x[0][0]} == want, "active space", **info)
                ctx.event("library_results_compared")


def w_simulate(ctx):
    """Complete simulations: the files do not depend on the number of processes and are the exact spectra."""
    s = sim.make(ctx, nds=(1, 9, 9, 8), nbs=(0, 0, 1), kmax=3)
    p = sim.parameters(ctx)
    p["wIn"], p["eps_in"], p["eps_out"], p["eps"], p["qs"] = p["wIn"][:2], p["eps_in"][:2], p["eps_out"][:2], p["eps"][:2], p["qs"][:1]
    ranks = ctx.pick([2, 3, 4, 5, 6])
    ctx.case(sorted(s.hop.items(), key=repr), repr(p), ranks, sample=dict(ranks=ranks, nd=s.nd, baths=s.nb, states=len(s.es)))
    data1, text1 = sim.run(s, p)
    out = mpi.run(ctx, [("simulate", dict(dirname="x", s=s, p=p))], ranks, delay=ctx.pick([None, (0.01, 0.002)]))
    data, text = out[0][0]
    ref = sim.reference(s, p)
    ctx.equal(sorted(data), sorted(data1), "datasets written", ranks=ranks)
    ctx.equal(sorted(text), sorted(text1), "files written", ranks=ranks)
    for name, r in ref.items():
        ctx.event("exact_values", sim.compare(ctx, name, data[name], r, ranks=ranks))
    compare_files(ctx, data, text, data1, text1, ranks=ranks)


def compare_files(ctx, data, text, data1, text1, rel0=1e-5, /, **info):
    """rel0: how far spectra of spaces which the Krylov vectors do not exhaust may depend on rounding."""
    for name in data1:
        rel = max(rel0, 2e-3) if name.startswith("RIXS") else rel0
        ctx.close(data[name], data1[name], "dataset %s depends on the number of processes" % name, rtol=rel, atol=1e-9, **info)
        ctx.event("datasets_compared")
    for name in text1:
        rel = max(rel0, 2e-3) if name.startswith("RIXS") else rel0
        ctx.close(text[name], text1[name], "file %s depends on the number of processes" % name, rtol=rel, atol=2e-4, **info)
        ctx.event("files_compared")


def w_cli(ctx):
    """The program itself, with one and with several processes."""
    repo = os.environ.get("VM_REPO", "/repo")
    ranks = [2, 3, 4, 5][(ctx.index + ctx.seed) % 4]
    cf = ctx.chance(0.5)
    argv = [os.path.join(repo, "h0", ctx.pick(["h0_NiO_CF.json", "h0_CoO_CF.json"]) if cf else "h0_NiO_10bath.pickle"), os.path.join(repo, "radialOrbitals", "Ni3d.dat")]
    if cf and not os.path.exists(argv[0]):
        argv[0] = os.path.join(repo, "h0", "h0_NiO_CF.json")
    small = ctx.chance(0.5)
    # one state, split off by a field: it is unique, and the run is short
    argv += ["--dnValBaths", "0", "0" if small else "1", "--dnTols", "0", "1", "--nPsiMax", "1", "--n0imps", "6", ctx.pick(["8", "9"] if cf else ["8"]), "--hField", "0.01", "0", str(round(ctx.rng.uniform(0.02, 0.1), 4)),
             "--T", str(ctx.pick([5, 300])), "--delta", str(ctx.pick([0.2, 0.4])), "--deltaRIXS", "0.1"]
    module = "impurityModel.ed.get_spectra_using_CF" if cf else "impurityModel.ed.get_spectra"
    ctx.case(ranks, module, repr(argv), sample=dict(ranks=ranks, module=module, arguments=argv[2:]))
    one = mpi.run(ctx, [("cli", dict(dirname="x", module=module, argv=argv, thin=10))], 1)
    many = mpi.run(ctx, [("cli", dict(dirname="x", module=module, argv=argv, thin=10))], ranks)
    compare_files(ctx, *many[0][0], *one[0][0], 1e-4 if small else 1e-2, ranks=ranks, arguments=argv[2:])
    ctx.event("program_runs_compared")


WORKLOADS = [W("pipeline", w_pipeline, 12, 120, first=True), W("library", w_library, 8, 80, first=True), W("simulate", w_simulate, 4, 40, first=True), W("cli", w_cli, 2, 12, first=True)]
