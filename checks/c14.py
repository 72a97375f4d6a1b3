"""C14: reported static expectation values are those of the eigenstates."""
import contextlib
import io
from collections import OrderedDict

import numpy as np

from impurityModel.ed import finite
from vm import atomic, fock, gen
from vm.core import W


def system(ctx):
    nb = ctx.pick([OrderedDict([(1, 0), (2, ctx.int(0, 12))]), OrderedDict([(2, ctx.int(0, 12)), (1, ctx.int(0, 3))]),
                   OrderedDict([(2, ctx.int(0, 5))]), OrderedDict([(0, ctx.int(0, 2)), (2, ctx.int(0, 3)), (1, 2)]),
                   OrderedDict([(3, ctx.int(0, 3)), (2, ctx.int(0, 3))]), OrderedDict([(2, 0), (3, ctx.int(0, 2)), (1, 0), (0, 1)]),
                   OrderedDict([(1, 0), (2, ctx.pick([10, 20, 48, 120, 280]))])])
    labels = gen.labels(nb)
    ix = {x: i for i, x in enumerate(labels)}
    return nb, labels, ix, len(labels)


def d_op(ix, mat, l=2):
    return atomic.relabel(atomic.op_of_matrix(atomic.shell(l), mat), ix)


def state(ctx, nb, ix, n, style=None):
    d = [ix[x] for x in atomic.shell(2)]
    style = style or ctx.pick(["random", "multiplet", "one", "mixed", "spinflip", "empty_shell", "full_shell"])
    rest = [i for i in range(n) if i not in d]
    if style == "multiplet":  # superposition of states of one shell occupation and the same surroundings
        nel = ctx.int(1, 9)
        ms = [fock.mask_of(d[i] for i in c) for c in (ctx.rng.sample(range(10), nel) for _ in range(ctx.int(2, 25)))]
        other = fock.mask_of(ctx.rng.sample(rest, ctx.int(0, len(rest)))) if rest else 0
        p = {m | other: ctx.coef("complex") for m in ms}
    elif style == "one":
        p = {gen.mask(ctx, n): ctx.coef("complex")}
    elif style == "spinflip":  # large off-diagonal elements: one electron moved coherently
        base = ctx.rng.sample(d, ctx.int(1, 4))
        free = [i for i in d if i not in base]
        p = {}
        for i in ctx.rng.sample(free, ctx.int(2, len(free))):
            p[fock.mask_of(base + [i])] = ctx.coef("complex")
    elif style == "mixed":
        p = gen.psi(ctx, n, ctx.int(2, 12))
    elif style in ("empty_shell", "full_shell"):
        occ = d if style == "full_shell" else []
        p = {fock.mask_of(list(occ) + ctx.rng.sample(rest, ctx.int(0, len(rest)))): ctx.coef("complex") for _ in range(3)}
    else:
        nel = ctx.int(1, n - 1)
        p = gen.psi(ctx, n, ctx.int(2, 20), nel, ctx.pick(["float", "complex"]))
        if ctx.chance(0.4):  # neighbours, such that off-diagonal elements are not zero
            for m in list(p):
                occ = [i for i in d if m >> i & 1]
                emp = [i for i in d if not m >> i & 1]
                if occ and emp:
                    p[m ^ (1 << ctx.pick(occ)) ^ (1 << ctx.pick(emp))] = ctx.coef("complex")
    if ctx.chance(0.15):  # weak admixtures
        p = {m: v * 10.0 ** -ctx.pick([0, 0, 2, 4, 6, 8]) for m, v in p.items()}
    return gen.normalised(p), style


def reference(ix, p):
    """All reported quantities of a (normalised) state, mask form."""
    L, S = atomic.full_l(2), atomic.full_s(2)
    lo = [fock.Op(d_op(ix, x)) for x in L]
    so = [fock.Op(d_op(ix, x)) for x in S]
    shell = atomic.shell(2)
    r = {}
    rho = density(ix, p, 2)
    r["rho"] = rho
    r["N"] = np.trace(rho).real
    r["Lz"] = fock.inner(p, lo[2].apply(p)).real
    r["Sz"] = fock.inner(p, so[2].apply(p)).real
    r["L2"] = sum(fock.norm2(o.apply(p)) for o in lo)
    r["S2"] = sum(fock.norm2(o.apply(p)) for o in so)
    u = np.kron(np.eye(2), atomic.cubic_matrix(2))
    c = u.conj().T @ rho @ u
    r["cubic"] = c
    dg = np.diag(c).real
    r["occ"] = np.array([dg[0] + dg[1], dg[5] + dg[6], dg[2] + dg[3] + dg[4], dg[7] + dg[8] + dg[9]])
    return r


def density(ix, p, l):
    """n_ij = <c_j^+ c_i>."""
    shell = atomic.shell(l)
    rem = []
    for x in shell:
        rem.append(fock.apply_op({((ix[x], "a"),): 1}, p))
    n = np.zeros((len(shell), len(shell)), dtype=complex)
    for i in range(len(shell)):
        for j in range(len(shell)):
            n[i, j] = fock.inner(rem[j], rem[i])
    return n


def code_signs(ctx):
    """Sign of each cubic harmonic of the code (a convention)."""
    u = finite.get_spherical_2_cubic_matrix()
    s = np.diag(atomic.cubic_matrix(2).conj().T @ u).real
    ctx.check(np.allclose(np.abs(s), 1), "cubic harmonics of the code are not the documented ones")
    return np.round(s)


def w_values(ctx):
    nb, labels, ix, n = system(ctx)
    p, style = state(ctx, nb, ix, n)
    if len(p) > 40 or n > 60 and len(p) > 15:
        p = gen.normalised(dict(list(p.items())[:15]))
    ctx.case(sorted(nb.items()), sorted(p.items()), sample=dict(nBaths=dict(nb), style=style, product_states=len(p)))
    psi = fock.psi_to_bytes(p, n)
    keep, kb = dict(psi), list(nb.items())
    r = reference(ix, p)
    info = dict(nBaths=dict(nb), style=style)
    tol = dict(rtol=1e-9, atol=1e-9)
    ctx.close(finite.getTraceDensityMatrix(nb, psi), r["N"], "number of 3d electrons", **tol, **info)
    ctx.close(finite.getLz3d(nb, psi), r["Lz"], "Lz", **tol, **info)
    ctx.close(finite.getSz3d(nb, psi), r["Sz"], "Sz", **tol, **info)
    ctx.close(finite.getLsqr3d(nb, psi), r["L2"], "L^2", **tol, **info)
    ctx.close(finite.getSsqr3d(nb, psi), r["S2"], "S^2", **tol, **info)
    ctx.close(np.array(finite.getEgT2gOccupation(nb, psi)), r["occ"], "eg/t2g occupations (eg dn, eg up, t2g dn, t2g up)", **tol, **info)
    got = finite.getDensityMatrix(nb, psi)
    sh = atomic.shell(2)
    want = {(a, b): r["rho"][i, j] for i, a in enumerate(sh) for j, b in enumerate(sh)}
    ctx.close_dict(got, want, "density matrix in spherical harmonics", rtol=1e-9, atol=1e-10, **info)
    s = code_signs(ctx)
    got = finite.getDensityMatrixCubic(nb, psi)
    want = {((a, i), (b, j)): r["cubic"][5 * a + i, 5 * b + j] * s[i] * s[j] for a in range(2) for b in range(2) for i in range(5) for j in range(5)}
    ctx.close_dict(got, want, "density matrix in cubic harmonics", rtol=1e-9, atol=1e-10, **info)
    ctx.event("states_evaluated")
    off = r["rho"] - np.diag(np.diag(r["rho"]))
    if np.max(np.abs(off.imag)) > 1e-3:
        ctx.event("complex_offdiagonal_density")
    if np.max(np.abs(off[:5, 5:])) > 1e-3:
        ctx.event("spin_offdiagonal_density")
    for l in nb:
        if l == 2 or len(p) > 11:
            continue
        d = density(ix, p, l)
        ctx.close(finite.getTraceDensityMatrix(nb, psi, l=l), np.trace(d).real, "number of electrons of another shell", l=l, **tol, **info)
        got = finite.getDensityMatrix(nb, psi, l)
        sh = atomic.shell(l)
        ctx.close_dict(got, {(a, b): d[i, j] for i, a in enumerate(sh) for j, b in enumerate(sh)}, "density matrix of another shell", rtol=1e-9, atol=1e-10, l=l, **info)
        ctx.event("p_shells" if l == 1 else "s_and_f_shells")
    ctx.check(psi == keep and list(nb.items()) == kb, "arguments were modified")


def w_ladder(ctx):
    nb, labels, ix, n = system(ctx)
    p, style = state(ctx, nb, ix, n)
    scale = ctx.pick([1, 1, 2.5, 1j, 1e-3])
    p = {k: v * scale for k, v in p.items()}
    ctx.case("lad", sorted(nb.items()), sorted(p.items(), key=repr), sample=dict(nBaths=dict(nb), style=style))
    psi = fock.psi_to_bytes(p, n)
    keep = dict(psi)
    L, S = atomic.full_l(2), atomic.full_s(2)
    todo = [("Sz", finite.applySz3d, S[2]), ("Lz", finite.applyLz3d, L[2]), ("S+", finite.applySplus3d, S[0] + 1j * S[1]), ("S-", finite.applySminus3d, S[0] - 1j * S[1]),
            ("L+", finite.applyLplus3d, L[0] + 1j * L[1]), ("L-", finite.applyLminus3d, L[0] - 1j * L[1])]
    ctx.rng.shuffle(todo)
    for name, fn, m in todo:
        got = fock.psi_from_bytes(fn(nb, psi), n)
        ctx.close_dict(got, fock.apply_op(d_op(ix, m), p), "action of " + name, rtol=1e-10, atol=1e-12 * abs(scale), name=name, nBaths=dict(nb), style=style)
        ctx.check(psi == keep, "the state was modified by " + name)
        ctx.event("ladder_actions")


def parse_table(text):
    rows = []
    for line in text.splitlines():
        t = line.split()
        if len(t) == 11:
            try:
                rows.append([(float(x), 0.5 * 10.0 ** -len(x.partition(".")[2])) for x in t])
            except ValueError:
                pass
    return rows


def w_table(ctx):
    nb, labels, ix, n = system(ctx)
    k = ctx.int(1, 5)
    ps = []
    for _ in range(k):
        p, _ = state(ctx, nb, ix, n, ctx.pick(["multiplet", "spinflip", "random", "one"]))
        ps.append(gen.normalised(dict(list(p.items())[:10])))
    es = np.sort(ctx.np.uniform(-3, 3, k)) + ctx.pick([0, -120.0, 35.5])
    if k > 2 and ctx.chance(0.4):
        es[1] = es[0]
    num = ctx.pick([None, None, k, ctx.int(1, k)])
    ctx.case("tab", repr(es), repr(ps), num, sample=dict(nBaths=dict(nb), states=k, n=num))
    psis = [fock.psi_to_bytes(p, n) for p in ps]
    keep, ke = [dict(x) for x in psis], es.copy()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if num is None:
            finite.printExpValues(nb, es, psis)
        else:
            finite.printExpValues(nb, es, psis, num)
    ctx.check(psis == keep and np.array_equal(es, ke), "arguments were modified")
    text = out.getvalue()
    rows = parse_table(text)
    want_n = k if num is None else num
    ctx.check(len(rows) == want_n, "number of printed rows", rows=len(rows), want=want_n, text=text)
    e0 = [l for l in text.splitlines() if l.startswith("E0")]
    ctx.check(len(e0) == 1 and abs(float(e0[0].split("=")[1]) - es[0]) <= 0.000051, "printed ground state energy", line=e0, want=es[0])
    for i, row in enumerate(rows):
        r = reference(ix, ps[i])
        o = r["occ"]
        want = [i, es[i] - es[0], r["N"], o[0], o[1], o[2], o[3], r["Lz"], r["Sz"], r["L2"], r["S2"]]
        for c, ((g, half), x) in enumerate(zip(row, want)):
            ctx.check(half <= 0.05 or c == 0, "printed value has too few digits", row=row)
            ctx.check(abs(g - x) <= half + 1e-7, "printed value differs", row=i, column=c, got=g, want=x, text=text)
            ctx.event("printed_values")


WORKLOADS = [W("values", w_values, 2000, 20000), W("ladder", w_ladder, 2500, 25000), W("table", w_table, 600, 6000)]
