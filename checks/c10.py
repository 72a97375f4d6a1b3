"""C10: the solver returns the lowest orthonormal eigenstates."""
import itertools

import numpy as np

from impurityModel.ed import finite
from vm import fock, gen, mpi
from vm.core import Skip, W


def hamiltonian(ctx):
    """(n, op, basis, description): generic, spin/orbital degenerate, diagonal, zero and nearly degenerate cases."""
    style = ctx.pick(["generic", "generic", "spin", "spin", "flavour", "diagonal", "constant", "near", "weak", "weak"])
    kind = ctx.pick(["float", "complex", None])
    if style == "generic":
        n = ctx.int(3, 8)
        op = gen.hermitian(ctx, n, ctx.int(2, 10), ctx.int(0, 8), kind=kind, diag=ctx.chance(0.8))
    elif style == "weak":  # orders of magnitude between the terms, e.g. a real Hamiltonian with a weak complex field
        n = ctx.int(3, 7)
        op = gen.hermitian(ctx, n, ctx.int(1, 6), ctx.int(0, 4), kind="float", diag=ctx.chance(0.5))
        eps = 10.0 ** ctx.rng.uniform(-5, -2)
        for p, v in gen.hermitian(ctx, n, ctx.int(1, 5), ctx.int(0, 3), kind=ctx.pick(["complex", "imag", "float"]), diag=ctx.chance(0.3)).items():
            op[p] = op.get(p, 0) + eps * v
        op = {p: v for p, v in op.items() if v != 0}
    elif style in ("spin", "flavour", "near"):
        f = 2 if style != "flavour" else 3
        m = ctx.int(2, 4) if f == 2 else ctx.int(2, 3)
        h1 = gen.hermitian(ctx, m, ctx.int(1, 5), 0, kind=kind)
        op = {}
        for p, v in h1.items():
            for s in range(f):
                op[tuple((f * i + s, a) for i, a in p)] = v
        u = ctx.pick([0, 1.5, ctx.rng.uniform(-2, 4)])
        if u:
            for i in range(m):
                for s in range(f):
                    for t in range(s):
                        op[((f * i + s, "c"), (f * i + t, "c"), (f * i + t, "a"), (f * i + s, "a"))] = u
        if style == "near":
            eps = 10.0 ** ctx.rng.uniform(-5, -1)
            for i in range(m):
                op[((f * i, "c"), (f * i, "a"))] = op.get(((f * i, "c"), (f * i, "a")), 0) + eps
        n = f * m
    else:
        n = ctx.int(3, 7)
        val = [ctx.pick([-1, 0, 0.5, ctx.rng.uniform(-2, 2)]) for _ in range(n)]
        if style == "constant":
            val = [ctx.rng.uniform(-2, 2)] * n
        op = {((i, "c"), (i, "a")): v for i, v in enumerate(val)}
    c = ctx.pick([0, 0, -100.0, 300.0])
    if c:
        for i in range(n):
            p = ((i, "c"), (i, "a"))
            op[p] = op.get(p, 0) + c
    if ctx.chance(0.8):
        basis = fock.all_masks(n, ctx.int(1, n - 1))
    else:
        basis = fock.all_masks(n, ctx.int(1, n - 1)) + fock.all_masks(n, ctx.int(0, 1) * n)
        basis = list(dict.fromkeys(basis))
    if ctx.chance(0.25):  # truncated basis
        basis = ctx.rng.sample(basis, ctx.int(1, len(basis)))
    ctx.rng.shuffle(basis)
    return n, op, basis, style


def reference(op, basis):
    """The matrix, where elements below the documented default cutoff of applyOp (weight 1e-12) are omitted."""
    h = fock.matrix(op, basis)
    a = np.abs(h)
    if np.any(np.abs(a - 1e-6) < 1e-12):
        raise Skip()
    h[a < 1e-6] = 0
    return h


def judge(ctx, n, op, basis, k, es, psis, cut, h, w, /, **info):
    kk = min(k, len(basis))
    scale = max(1.0, np.max(np.abs(w)), np.max(np.abs(h)))
    es = np.asarray(es)
    ctx.check(es.shape == (kk,) and len(psis) == kk, "number of returned eigenstates", got=(es.shape, len(psis)), want=kk, **info)
    ctx.check(not np.iscomplexobj(es) or np.all(es.imag == 0), "energies are real")
    es = es.real
    ctx.check(np.all(np.diff(es) >= -1e-9 * scale), "energies are not in ascending order", es=es, **info)
    ctx.close(es, w[:kk], "energies are not the lowest eigenvalues, counted with degeneracy", rtol=0, atol=(1e-10 if info.get("mode") == "full" else 1e-8) * scale, exact=w[:kk + 2], **info)
    index = {fock.to_bytes(m, n): i for i, m in enumerate(basis)}
    v = np.zeros((len(basis), kk), dtype=complex)
    for j, psi in enumerate(psis):
        for b, a in psi.items():
            ctx.check(b in index, "a state has a product state outside the basis", **info)
            v[index[b], j] = a
            ctx.check(abs(a) ** 2 >= cut * (1 - 1e-9), "a product state below the weight cutoff was kept", weight=abs(a) ** 2, cut=cut, **info)
    lost = len(basis) * cut  # the largest weight that can be missing
    tol = 2 * lost**0.5 * kk**0 + 2e-5
    ctx.close(v.conj().T @ v, np.eye(kk), "the eigenstates are not orthonormal", rtol=0, atol=2 * lost + 2 * lost**0.5 + 1e-8, **info)
    res = h @ v - v * es[None, :]
    ctx.check(np.max(np.linalg.norm(res, axis=0)) <= scale * tol * 2, "a returned state is not an eigenvector with its energy",
              residuals=np.linalg.norm(res, axis=0), scale=scale, **info)
    missing = 1 - np.linalg.norm(v, axis=0) ** 2
    ctx.check(np.all(missing <= lost + 1e-8), "more weight is missing than the cutoff allows", missing=missing, **info)
    ctx.event("eigenstates_checked", kk)
    # Nondegenerate states are known completely (up to their phase): exactly the product states with weight below
    # the cutoff are missing and all others have the exact amplitude.
    ref = np.linalg.eigh(h)[1]
    for j in range(kk):
        gap = min([abs(w[j] - w[i]) for i in (j - 1, j + 1) if 0 <= i < len(w)] + [scale])
        if gap < 1e-3 * scale:
            continue
        r = ref[:, j]
        o = np.vdot(r, v[:, j])
        if abs(o) < 0.3:
            continue  # judged by the residual
        d = v[:, j] - r * (o / abs(o))
        err = 1e-6 * scale / gap
        kept = np.abs(v[:, j]) > 0
        ctx.check(np.all(np.abs(d[kept]) <= err), "an amplitude of a nondegenerate eigenstate is wrong", state=j, error=np.max(np.abs(d[kept]), initial=0), **info)
        big = (np.abs(r) - err).clip(0) ** 2 > cut
        ctx.check(np.all(kept[big]), "a product state with a weight above the cutoff was omitted", state=j, weights=np.abs(r[big & ~kept]) ** 2, cut=cut, **info)
        ctx.event("nondegenerate_states")
    gaps = np.diff(w[:kk])
    if np.any(gaps < 1e-9 * scale):
        ctx.event("degenerate_cases")
    if kk < len(w) and w[kk] - w[kk - 1] < 1e-9 * scale:
        ctx.event("multiplet_cut_at_k")


def w_solver(ctx):
    n, op, basis, style = hamiltonian(ctx)
    h = reference(op, basis)
    w = np.linalg.eigvalsh(h)
    mode = ctx.pick(["full", "Lanczos"])
    d = len(basis)
    if mode == "Lanczos":
        if d < 4:
            raise Skip()
        k = ctx.int(1, min(d - 2, 14))
    else:
        k = ctx.pick([1, 2, d, d + 3, ctx.int(1, d)])
    cut = ctx.pick([None, 1e-7, 1e-12, 1e-14, 0, 1e-4, 10.0 ** ctx.rng.uniform(-4, -1.3)])
    ctx.case(n, sorted(op.items(), key=repr), basis, k, mode, sample=dict(style=style, n=n, dim=d, k=k, mode=mode, cut=cut))
    keep = dict(op)
    kw = {} if cut is None else dict(slaterWeightMin=cut)
    bb = tuple(fock.to_bytes(m, n) for m in basis)
    if mode == "Lanczos" and ctx.chance(0.3):
        es, psis = finite.eigensystem(n, op, bb, k, **kw)
    else:
        es, psis = finite.eigensystem(n, op, bb, k, mode, **kw)
    ctx.check(op == keep, "the operator was modified")
    judge(ctx, n, op, basis, k, es, psis, 1e-7 if cut is None else cut, h, w, mode=mode, style=style, k=k, n=n, op=op, dim=d)
    ctx.event("solver_" + mode)


def w_atomic(ctx):
    """Realistic Hamiltonians with large exact degeneracies: d shell with Coulomb, spin-orbit, field and crystal field."""
    from vm import atomic

    nel = ctx.int(1, 9)
    full = ctx.chance(0.3)
    n, op = atomic.d_shell(ctx)
    basis = fock.all_masks(10, nel)
    h = reference(op, basis)
    w = np.linalg.eigvalsh(h)
    d = len(basis)
    k = d if full and d < 60 else ctx.int(1, min(30, d - 2))
    mode = "full" if full else "Lanczos"
    ctx.case(sorted(op.items(), key=repr), nel, k, sample=dict(nel=nel, k=k, mode=mode, dim=d))
    es, psis = finite.eigensystem(10, op, tuple(fock.to_bytes(m, 10) for m in basis), k, mode, slaterWeightMin=1e-12)
    judge(ctx, 10, op, basis, k, es, psis, 1e-12, h, w, mode=mode, nel=nel, k=k)
    ctx.event("atomic_cases")


def w_few(ctx):
    """Hamiltonians with few distinct eigenvalues (where ARPACK may give up)."""
    style = ctx.pick(["all_to_all", "all_to_all", "two_levels", "integer_levels", "dimers"])
    n = ctx.int(6, 8)
    a = ctx.pick([1.0, ctx.rng.uniform(-2, 2)])
    if style == "all_to_all":
        op = {((i, "c"), (j, "a")): a for i in range(n) for j in range(n)}
    elif style == "two_levels":
        op = {((i, "c"), (i, "a")): a if i < n // 2 else -a for i in range(n)}
    elif style == "integer_levels":
        op = {((i, "c"), (i, "a")): ctx.pick([-1, 0, 1.0]) for i in range(n)}
    else:
        op = {}
        for i in range(0, n - 1, 2):
            op[((i, "c"), (i + 1, "a"))] = op[((i + 1, "c"), (i, "a"))] = a
    if ctx.chance(0.5):  # other phases of the orbitals
        f = [np.exp(1j * ctx.rng.uniform(0, 6)) for _ in range(n)]
        op = {((i, "c"), (j, "a")): complex(v * f[i] * np.conj(f[j])) if i != j else v for ((i, _), (j, _)), v in op.items()}
    basis = fock.all_masks(n, ctx.int(2, n - 2))
    if ctx.chance(0.3):
        ctx.rng.shuffle(basis)
    h = reference(op, basis)
    w = np.linalg.eigvalsh(h)
    k = ctx.int(1, min(len(basis) - 2, 14))
    ctx.case(sorted(op.items(), key=repr), basis, k, sample=dict(style=style, n=n, dim=len(basis), k=k))
    es, psis = finite.eigensystem(n, op, tuple(fock.to_bytes(m, n) for m in basis), k)
    judge(ctx, n, op, basis, k, es, psis, 1e-7, h, w, style=style, n=n, k=k, dim=len(basis))
    ctx.event("few_distinct_eigenvalues")


def w_large(ctx):
    """Hundreds of basis states."""
    n, op, basis = gen.big(ctx, 130, 720, 12)
    if ctx.chance(0.3):
        c = ctx.pick([-100.0, 300.0])
        for i in range(n):
            op[((i, "c"), (i, "a"))] = op.get(((i, "c"), (i, "a")), 0) + c
    basis = ctx.rng.sample(basis, ctx.pick([len(basis), ctx.int(100, len(basis))]))
    h = reference(op, basis)
    w = np.linalg.eigvalsh(h)
    mode = ctx.pick(["full", "Lanczos", "Lanczos"])
    k = ctx.pick([1, 2, 5, ctx.int(1, 40)] + ([len(basis)] if mode == "full" else []))
    cut = ctx.pick([1e-7, 1e-12, 1e-5])
    ctx.case(sorted(op.items(), key=repr), len(basis), k, mode, sample=dict(n=n, dim=len(basis), k=k, mode=mode, cut=cut))
    es, psis = finite.eigensystem(n, op, tuple(fock.to_bytes(m, n) for m in basis), k, mode, slaterWeightMin=cut)
    judge(ctx, n, op, basis, k, es, psis, cut, h, w, mode=mode, k=k, n=n, dim=len(basis))
    ctx.event("large_bases")


def w_free(ctx):
    """Thousands of basis states: independent electrons, whose energies are sums of orbital energies."""
    n, k = ctx.pick([(13, 6), (14, 5), (14, 7), (15, 5), (16, 4), (16, 5)] + [(16, 8), (18, 6)] * ctx.thorough)
    t = np.zeros((n, n), dtype=complex)
    kind = ctx.pick(["float", "complex"])
    for i in range(n):
        t[i, i] = ctx.rng.uniform(-2, 2)
        j = (i + 1) % n
        t[i, j] = ctx.coef(kind, lo=0.2)
        t[j, i] = np.conj(t[i, j])
    if ctx.chance(0.4):  # two independent copies: degenerate levels
        m = n // 2
        t[:m, m:] = t[m:, :m] = 0
        t[m:2 * m, m:2 * m] = t[:m, :m]
    op = {((i, "c"), (j, "a")): complex(t[i, j]) if kind == "complex" else float(t[i, j].real) for i in range(n) for j in range(n) if t[i, j]}
    e1 = np.linalg.eigvalsh(t)
    basis = fock.all_masks(n, k)
    ctx.rng.shuffle(basis)
    w = np.sort([sum(x) for x in itertools.combinations(e1, k)])
    states = ctx.pick([1, 3, 6])
    ctx.case(sorted(op.items(), key=repr), k, states, sample=dict(n=n, electrons=k, dim=len(basis), k=states))
    es, psis = finite.eigensystem(n, op, tuple(fock.to_bytes(m, n) for m in basis), states, slaterWeightMin=1e-12)
    info = dict(n=n, dim=len(basis), k=states)
    ctx.close(es, w[:states], "energies are not the lowest eigenvalues, counted with degeneracy", rtol=0, atol=1e-7, exact=w[:states + 2], **info)
    ps = [fock.psi_from_bytes(p, n) for p in psis]
    fop = fock.Op(op)
    for i, p in enumerate(ps):
        for j in range(i + 1):
            o = sum(np.conj(ps[j].get(m, 0)) * a for m, a in p.items())
            ctx.check(abs(o - (i == j)) < 1e-6, "the eigenstates are not orthonormal", i=i, j=j, overlap=o, **info)
        r = {m: -es[i] * a for m, a in p.items()}
        for m, a in p.items():
            for q, v in fop.row(m, None).items():
                r[q] = r.get(q, 0) + a * v
        res = sum(abs(x) ** 2 for x in r.values()) ** 0.5
        ctx.check(res < 1e-3, "a returned state is not an eigenvector with its energy", state=i, residual=res, **info)
    ctx.event("huge_bases")
    ctx.event("eigenstates_checked", states)


def w_mpi(ctx):
    ranks = ctx.pick([2, 3, 4])
    tasks, wants = [], []
    while len(tasks) < 10:
        n, op, basis, style = hamiltonian(ctx)
        if len(basis) < 5:
            continue
        k = ctx.int(1, min(10, len(basis) - 2))
        mode = ctx.pick(["full", "Lanczos"])
        tasks.append(("eigensystem", dict(n=n, op=op, basis=[fock.to_bytes(m, n) for m in basis], k=k, mode=mode, cut=1e-12)))
        wants.append((n, op, basis, k, mode))
    ctx.case(ranks, repr(tasks), sample=dict(ranks=ranks, tasks=len(tasks)))
    out = mpi.run(ctx, tasks, ranks, delay=ctx.pick([None, (0.3, 0.002)]))
    for (n, op, basis, k, mode), res in zip(wants, out):
        h = reference(op, basis)
        w = np.linalg.eigvalsh(h)
        for r in range(ranks):
            judge(ctx, n, op, basis, k, res[r][0], res[r][1], 1e-12, h, w, mode=mode, rank=r, ranks=ranks)
            ctx.event("mpi_solutions")


WORKLOADS = [W("solver", w_solver, 2500, 40000), W("atomic", w_atomic, 60, 600), W("few", w_few, 250, 3000), W("large", w_large, 40, 400), W("free", w_free, 12, 160), W("mpi", w_mpi, 8, 60, first=True)]
