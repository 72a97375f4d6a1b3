"""C03: applying an operator gives the exact second-quantised result."""
import copy

from impurityModel.ed.finite import applyOp
from vm import fock, gen
from vm.core import W


def judge(ctx, n, op, psi, restr, cut, use_cache, positional=False):
    """One monitored call. psi in masks."""
    bpsi = fock.psi_to_bytes(psi, n)
    args = dict(op=op, psi=bpsi, restrictions=restr)
    before = copy.deepcopy(args)
    kw = {}
    if cut is not None:
        kw["slaterWeightMin"] = cut
    if restr is not None or ctx.chance(0.5):
        kw["restrictions"] = restr
    if use_cache:
        kw["opResult"] = {}
    got_b = applyOp(n, op, bpsi, **kw)
    ctx.event("applyOp_calls")
    ctx.check(args["op"] == before["op"] and list(op) == list(before["op"]), "the operator was modified", before=before["op"], after=op)
    ctx.check(bpsi == before["psi"], "the state was modified", before=before["psi"], after=bpsi)
    ctx.check(restr == before["restrictions"], "the restrictions were modified", before=before["restrictions"], after=restr)
    ctx.check(got_b is not bpsi, "the result is the input object")
    got = fock.psi_from_bytes(got_b, n)
    want = fock.apply_op(op, psi, fock.restr_masks(restr))
    ctx.event("result_product_states", len(want))
    c = 1e-12 if cut is None else cut
    info = dict(n=n, op=op, psi={fock.occ_of(k): v for k, v in psi.items()}, restrictions=restr, cut=cut, cache=use_cache)
    ctx.close_dict(got, want, "applyOp differs from the exact result", rtol=1e-11, atol=1e-12, cut2=c, **info)
    for k, v in want.items():
        if abs(v) ** 2 < c * (1 - 1e-6) - 1e-28:
            ctx.check(k not in got, "a product state below the weight cutoff was kept", key=fock.occ_of(k), value=v, **info)
            ctx.event("dropped_by_weight")
    if restr is not None:
        full = fock.apply_op(op, psi)
        ctx.event("dropped_by_restriction", len(full) - len(want))
    return want


def pick_cut(ctx, use_cache):
    if use_cache:
        return ctx.pick([None, None, 1e-12, 1e-9, 0])
    return ctx.pick([None, None, None, 0, 1e-12, 1e-7, 1e-4, 1e-2, 0.3])


def w_small(ctx):
    """Few orbitals, hence many coincidences, blocked processes, cancellations."""
    n = ctx.int(1, 10)
    op = gen.op_general(ctx, n, ctx.int(1, 14), ctx.pick([4, 6, 9]))
    if ctx.chance(0.15):
        op[()] = ctx.coef()
    psi = gen.psi(ctx, n, ctx.int(1, 10))
    if ctx.chance(0.1):
        psi = {}
    if ctx.chance(0.3):  # partial cancellation in the result
        p = ctx.pick(list(op))
        for m in list(psi):
            r = fock.apply_process(m, p)
            if r:
                op[((0, "c"), (0, "a")) + p] = -op[p] * ctx.pick([1, 1, 0.5])
                break
    full = fock.apply_op(op, psi)
    restr = None
    if ctx.chance(0.6):
        restr = gen.restrictions(ctx, n, list(full) or list(psi), ctx.pick([0, 1, 1, 2, 2, 3, 5]))
        if restr and ctx.chance(0.06):  # limits which no product state can meet
            k = ctx.pick(list(restr))
            restr[k] = (restr[k][1] + 1, restr[k][0])
            ctx.event("empty_limits")
    use_cache = ctx.chance(0.5)
    ctx.case(n, sorted(op.items(), key=repr), sorted(psi.items()), repr(restr), sample=dict(n=n, op=op, psi=len(psi), restrictions=restr, cache=use_cache))
    judge(ctx, n, op, psi, restr, pick_cut(ctx, use_cache), use_cache)


def w_large(ctx):
    """Many orbitals and terms: widths around byte and word boundaries."""
    n = ctx.size(11, 420, 90)
    orbs = list(range(n)) if ctx.chance(0.6) else ctx.rng.sample(range(n), min(n, 12))
    nel = ctx.pick([None, ctx.int(0, n), min(n, ctx.int(1, 12)), max(0, n - ctx.int(0, 6))])
    psi = gen.psi(ctx, n, ctx.int(1, 25), nel)
    style = ctx.pick(["general", "conserving", "hermitian", "targeted"])
    if style == "general":
        op = gen.op_general(ctx, n, ctx.int(1, 40), 6, orbs)
    elif style == "conserving":
        op = gen.op_conserving(ctx, n, ctx.int(1, 30), ctx.int(0, 30), orbs)
    elif style == "hermitian":
        op = gen.hermitian(ctx, n, ctx.int(1, 20), ctx.int(0, 20), orbs, diag=ctx.chance(0.3))
    else:  # processes which are possible for at least one of the product states
        op = {}
        for _ in range(ctx.int(1, 25)):
            m = ctx.pick(list(psi))
            p = []
            for _ in range(ctx.pick([1, 2, 2, 4, 4, 5, 6, 8])):
                i = ctx.int(0, n - 1)
                a = "a" if m >> i & 1 else "c"
                m ^= 1 << i
                p.insert(0, (i, a))
            op[tuple(p)] = ctx.coef()
    full = fock.apply_op(op, psi)
    restr = None
    if ctx.chance(0.6):
        restr = gen.restrictions(ctx, n, list(full) or list(psi))
    use_cache = ctx.chance(0.5)
    ctx.case(n, style, len(op), sorted(psi.items()), repr(restr), sample=dict(n=n, style=style, nproc=len(op), npsi=len(psi), restrictions=len(restr or ()), cache=use_cache))
    judge(ctx, n, op, psi, restr, pick_cut(ctx, use_cache), use_cache)


def w_many(ctx):
    """States with hundreds and thousands of product states, as in real eigenstates."""
    n, op, masks = gen.big(ctx, 150, 3500)
    if ctx.chance(0.4):
        op = gen.op_conserving(ctx, n, n, n)
    if ctx.chance(0.2):
        op = {((i, ctx.pick("ca")),): ctx.coef() for i in ctx.rng.sample(range(n), 3)}
    k = ctx.pick([len(masks), ctx.int(100, len(masks)), ctx.size(2, len(masks), 200)])
    psi = {m: ctx.coef() * 10.0 ** (-ctx.pick([0, 0, 1, 2, 4])) for m in ctx.rng.sample(masks, k)}
    restr = gen.restrictions(ctx, n, masks) if ctx.chance(0.5) else None
    use_cache = ctx.chance(0.5)
    ctx.case(n, k, sorted(op.items(), key=repr), repr(restr), use_cache, sample=dict(n=n, nproc=len(op), npsi=k, restrictions=len(restr or ()), cache=use_cache))
    judge(ctx, n, op, psi, restr, pick_cut(ctx, use_cache), use_cache)
    ctx.event("large_states")


def w_linear(ctx):
    """Linearity in state and operator, products and adjoints, with the code under test alone."""
    n = ctx.size(2, 120, 20)
    orbs = ctx.rng.sample(range(n), min(n, 8))
    A, B = (gen.op_conserving(ctx, n, ctx.int(1, 6), ctx.int(0, 6), orbs) for _ in range(2))
    nel = ctx.int(1, n - 1)
    p, q = gen.psi(ctx, n, ctx.int(1, 6), nel), gen.psi(ctx, n, ctx.int(1, 6), nel)
    x, y = ctx.coef("complex"), ctx.coef("complex")
    ctx.case(n, sorted(p.items()), sorted(q.items()), sample=dict(n=n, A=len(A), B=len(B), p=len(p), q=len(q)))
    bp, bq = fock.psi_to_bytes(p, n), fock.psi_to_bytes(q, n)
    lin = fock.add_ops({k: x * v for k, v in bp.items()}, {k: y * v for k, v in bq.items()})
    Ap, Aq = applyOp(n, A, bp, 0), applyOp(n, A, bq, 0)
    ctx.event("applyOp_calls", 6)
    ctx.close_dict(applyOp(n, A, lin, 0), fock.add_ops({k: x * v for k, v in Ap.items()}, {k: y * v for k, v in Aq.items()}), "not linear in the state")
    Bp = applyOp(n, B, bp, 0)
    AB = {}
    for k1, v1 in A.items():
        for k2, v2 in B.items():
            AB[k1 + k2] = v1 * v2
    ctx.close_dict(applyOp(n, AB, bp, 0), applyOp(n, A, Bp, 0), "the product operator differs from applying one after the other")
    lhs = fock.inner(bq, Ap)
    rhs = fock.inner(applyOp(n, fock.dagger(A), bq, 0), bp)
    ctx.close(lhs, rhs, "<q|A p> differs from <A^+ q|p>", atol=1e-9)


WORKLOADS = [W("small", w_small, 6000, 100000), W("large", w_large, 3500, 50000), W("linear", w_linear, 600, 8000), W("many", w_many, 80, 800)]
