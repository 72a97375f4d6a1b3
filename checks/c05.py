"""C05: state and operator algebra is exact linear algebra."""
import copy

import numpy as np

from impurityModel.ed import finite
from vm import fock, gen
from vm.core import W


def scalar(ctx):
    return ctx.pick([0, 1, -1, 2, 0.5, 1j, ctx.coef(), ctx.coef("complex"), ctx.coef("imag")])


def random_psi(ctx, n, kmax=10):
    r = ctx.rng.random()
    if r < 0.06:
        return {}
    p = gen.psi(ctx, n, ctx.int(1, kmax))
    if r < 0.12:
        p[ctx.pick(list(p))] = 0
    return p


def exact_sum(ctx, got, parts, msg, **info):
    """got is the sum of parts = [(factor, dict)], up to rounding of each single entry."""
    total, size = {}, {}
    for f, d in parts:
        for k, v in d.items():
            total[k] = total.get(k, 0) + f * v
            size[k] = size.get(k, 0) + abs(f * v)
    for k in set(total) | set(got):
        ctx.check(abs(got.get(k, 0) - total.get(k, 0)) <= 2e-15 * size.get(k, 0), msg, key=k, got=got.get(k, 0), want=total.get(k, 0), **info)


def w_scales(ctx):
    """Very small and very large amplitudes and strengths are treated as all others."""
    n = ctx.size(1, 300, 20, 0.7)
    e = ctx.pick([-10, -7, -4, 4, 8])
    spread = ctx.pick([0, 0, 6])

    def state():
        return {m: v * 10.0 ** (e - ctx.rng.uniform(0, spread)) for m, v in random_psi(ctx, n).items()}

    p, q = state(), state()
    for m in list(p):
        if ctx.chance(0.5):
            q[m] = ctx.coef() * 10.0 ** (e - ctx.rng.uniform(0, spread))
    x = ctx.pick([1, -1, 1j, 0.5, 1e-9, 1e9])
    ctx.case(n, e, sorted(p.items()), sorted(q.items()), sample=dict(n=n, exponent=e, p=len(p), q=len(q), x=x))
    bp, bq = fock.psi_to_bytes(p, n), fock.psi_to_bytes(q, n)
    s2 = sum(abs(v) ** 2 for v in list(p.values()) + list(q.values()))
    ctx.close(finite.norm2(bp), fock.norm2(p), "norm", rtol=1e-12, atol=0, p=p)
    ctx.close(finite.inner(bp, bq), fock.inner(p, q), "inner product", rtol=1e-12, atol=1e-13 * s2, p=p, q=q)
    exact_sum(ctx, finite.add(bp, bq, x), [(1, bp), (x, bq)], "add", x=x)
    tgt = dict(bp)
    finite.addToFirst(tgt, bq, x)
    exact_sum(ctx, tgt, [(1, bp), (x, bq)], "addToFirst", x=x)
    i = ctx.int(0, n - 1)
    for act in "ac":
        got = fock.psi_from_bytes(getattr(finite, act)(n, i, bp), n)
        exact_sum(ctx, got, [(1, fock.apply_op({((i, act),): 1}, p))], "finite.%s" % act)
    ops = [{k: v * 10.0 ** (e - ctx.rng.uniform(0, spread)) for k, v in gen.op_general(ctx, n, ctx.int(1, 6), 4).items()} for _ in range(ctx.int(1, 3))]
    if ctx.chance(0.5):
        ops.append({k: ctx.coef() * 10.0 ** e for k in ops[0]})
    exact_sum(ctx, finite.addOps(ops), [(1, o) for o in ops], "addOps")
    ctx.equal(finite.daggerOp(ops[0]), fock.dagger(ops[0]), "daggerOp", op=ops[0])
    ctx.event("scales", 8)


def w_states(ctx):
    n = ctx.size(1, 300, 20, 0.7)
    p = random_psi(ctx, n)
    q = random_psi(ctx, n)
    for m in list(p):  # overlap and cancellation
        if ctx.chance(0.5):
            q[m] = ctx.coef() if ctx.chance(0.6) else -p[m]
    r = random_psi(ctx, n)
    for m in list(p):
        if ctx.chance(0.4):
            r[m] = ctx.coef()
    x, y = scalar(ctx), scalar(ctx)
    ctx.case(n, sorted(p.items()), sorted(q.items()), repr(x), sample=dict(n=n, p=len(p), q=len(q), x=x))
    bp, bq, br = (fock.psi_to_bytes(s, n) for s in (p, q, r))
    kp, kq, kr = dict(bp), dict(bq), dict(br)
    ctx.close(finite.inner(bp, bq), fock.inner(p, q), "inner product", atol=1e-12, p=p, q=q)
    ctx.close(finite.inner(bq, bp), np.conj(fock.inner(p, q)), "conjugate symmetry of the inner product", atol=1e-12)
    ctx.close(finite.norm2(bp), fock.norm2(p), "norm", atol=1e-12, p=p)
    ctx.close(finite.norm2(bp), finite.inner(bp, bp), "the norm is the diagonal of the inner product", atol=1e-12)
    ctx.check(np.imag(finite.norm2(bp)) == 0 and np.real(finite.norm2(bp)) >= 0, "norm is real and non-negative", p=p)
    # sesqui-linearity of the inner product
    comb = {k: x * kq.get(k, 0) + y * kr.get(k, 0) for k in set(kq) | set(kr)}
    i1, i2 = finite.inner(bp, bq), finite.inner(bp, br)
    ctx.close(finite.inner(bp, comb), x * i1 + y * i2, "inner is linear in the second argument", atol=1e-10, x=x, y=y, p=p, q=q)
    ctx.close(finite.inner(comb, bp), np.conj(x) * np.conj(i1) + np.conj(y) * np.conj(i2), "inner is conjugate-linear in the first argument", atol=1e-10)
    # addition, returns a new state
    want = fock.add_ops(p, {k: x * v for k, v in q.items()})
    got = finite.add(bp, bq, x) if ctx.chance(0.5) else finite.add(bp, bq, mul=x)
    ctx.close_dict(fock.psi_from_bytes(got, n), want, "add", atol=1e-13, p=p, q=q, x=x)
    ctx.check(got is not bp and got is not bq, "add returns a new object")
    ctx.close_dict(finite.add(bp, bq), {k: kp.get(k, 0) + kq.get(k, 0) for k in set(kp) | set(kq)}, "add with default factor", atol=1e-13)
    got2 = dict(got)
    got[b"x"] = 1
    ctx.check(bp == kp and bq == kq, "add modified its arguments", p=p, q=q)
    # in-place addition
    tgt = dict(bp)
    ret = finite.addToFirst(tgt, bq, x) if ctx.chance(0.7) else finite.addToFirst(psi1=tgt, psi2=bq, mul=x)
    ctx.check(ret is None or ret is tgt, "addToFirst works in place")
    ctx.close_dict(tgt, got2, "addToFirst differs from add", atol=1e-13, p=p, q=q, x=x)
    tgt = dict(bp)
    finite.addToFirst(tgt, bq)
    ctx.close_dict(tgt, {k: kp.get(k, 0) + kq.get(k, 0) for k in set(kp) | set(kq)}, "addToFirst with default factor", atol=1e-13)
    ctx.check(bq == kq, "addToFirst modified its second argument")
    # adding back gives the original
    finite.addToFirst(tgt, bq, -1)
    ctx.close_dict(tgt, kp, "adding and subtracting", atol=1e-12)
    # annihilation and creation
    i = ctx.int(0, n - 1)
    for name, act in (("a", "a"), ("c", "c")):
        got = getattr(finite, name)(n, i, bp)
        want = fock.apply_op({((i, act),): 1}, p)
        ctx.close_dict(fock.psi_from_bytes(got, n), want, "finite.%s" % name, atol=1e-13, n=n, i=i, p=p)
        ctx.check(got is not bp, "finite.%s returns a new object" % name)
        ctx.event("ladder_actions")
    ctx.check(bp == kp and bq == kq and br == kr, "a state was modified", p=p)
    # <q|c+_i p> = <a_i q|p>
    ctx.close(finite.inner(bq, finite.c(n, i, bp)), finite.inner(finite.a(n, i, bq), bp), "creation is the adjoint of annihilation", atol=1e-11)
    ctx.event("state_operations", 12)


def w_operators(ctx):
    n = ctx.size(1, 90, 8, 0.8)
    label = ctx.chance(0.25)  # labels instead of indices: adjoint and sum do not depend on them

    def lab(i):
        return (2, i % 2, i) if label else i

    def rnd(k):
        op = gen.op_general(ctx, n, k, 5)
        if ctx.chance(0.3):
            op.update(gen.hermitian(ctx, n, 2, 1))
        if ctx.chance(0.1):
            op[()] = ctx.coef()
        if ctx.chance(0.1):
            op[ctx.pick(list(op))] = 0
        return {tuple((lab(i), a) for i, a in p): v for p, v in op.items()}

    ops = [rnd(ctx.int(1, 8)) for _ in range(ctx.int(1, 4))]
    if ctx.chance(0.1):
        ops.append({})
    if len(ops) > 1:  # shared and cancelling terms
        for p, v in list(ops[0].items()):
            if ctx.chance(0.5):
                ops[1][p] = -v if ctx.chance(0.4) else ctx.coef()
    ctx.case(repr(ops), sample=dict(n=n, ops=[len(o) for o in ops]))
    keep = copy.deepcopy(ops)
    got = finite.addOps(ops)
    ctx.close_dict(got, fock.add_ops(*ops), "addOps", rtol=1e-13, atol=1e-14, ops=ops)
    ctx.check(all(got is not o for o in ops), "addOps returns a new object")
    ctx.check(ops == keep, "addOps modified an operator")
    got[((lab(0), "c"),)] = 77.0
    ctx.check(ops == keep, "addOps shares memory with an operator")
    # sums in another order and association
    got = finite.addOps(ops)
    ctx.close_dict(finite.addOps(tuple(ops[::-1])), got, "addOps in other order", rtol=1e-12, atol=1e-13)
    ctx.close_dict(finite.addOps([finite.addOps(ops[:1]), finite.addOps(ops[1:])]), got, "addOps is associative", rtol=1e-12, atol=1e-13)
    op = ops[0]
    d = finite.daggerOp(op)
    ctx.equal(d, fock.dagger(op), "daggerOp", op=op)
    ctx.check(op == keep[0], "daggerOp modified the operator")
    ctx.equal(finite.daggerOp(d), op, "the adjoint of the adjoint is the operator", op=op)
    ctx.close_dict(finite.daggerOp(got), finite.addOps([finite.daggerOp(o) for o in ops]), "the adjoint of a sum", rtol=1e-12, atol=1e-13)
    ctx.event("operator_operations", 8)
    if not label:
        p, q = gen.psi(ctx, n, ctx.int(1, 6)), gen.psi(ctx, n, ctx.int(1, 6))
        q.update({k: ctx.coef() for k in list(fock.apply_op(op, p))[:6]})
        lhs = finite.inner(fock.psi_to_bytes(q, n), finite.applyOp(n, op, fock.psi_to_bytes(p, n), 0))
        rhs = finite.inner(finite.applyOp(n, finite.daggerOp(op), fock.psi_to_bytes(q, n), 0), fock.psi_to_bytes(p, n))
        ctx.close(lhs, rhs, "<q|O p> = <O^+ q|p>", atol=1e-9, op=op, p=p, q=q)
        ctx.event("adjoint_matrix_elements")


def w_guard(ctx):
    """The Hermiticity guard accepts exactly the operators that equal their adjoint."""
    n = ctx.int(2, 12)
    op = gen.hermitian(ctx, n, ctx.int(1, 8), ctx.int(0, 6), kind=ctx.pick(["float", "complex", None]))
    if ctx.chance(0.2):
        op = fock.add_ops(op, {((0, "c"),): 1.5j, ((0, "a"),): -1.5j})
    if ctx.chance(0.2):
        s = ctx.pick([1e-12, 1e-6, 1e6])
        op = {k: s * v for k, v in op.items()}
    r = ctx.rng.random()
    bad = r < 0.6
    kind = "none"
    if bad:
        p = ctx.pick(list(op))
        kind = ctx.pick(["drop", "scale", "conj", "imag", "extra", "sign", "tiny", "ulp", "weak", "weak_imag"])
        q = next(iter(fock.dagger({p: 1})))
        if kind == "drop" and q != p:
            del op[p]
        elif kind == "scale" and q != p:
            op[p] *= 1.0001
        elif kind == "conj" and q != p and abs(complex(op[p]).imag) > 1e-3:
            op[p] = op[q]
        elif kind == "imag":
            op[p] = op[p] + 0.001j
        elif kind == "sign" and q != p:
            op[p] = -op[p]
        elif kind == "tiny" and q != p:
            op[p] = op[p] * (1 + 1e-9)
        elif kind == "ulp" and q != p:
            op[p] = op[p] * (1 + 3e-16)
        elif kind == "weak":
            op[((0, "c"), (1, "c"), (0, "a"))] = ctx.pick([1e-9, 1e-13, 1e-20])
        elif kind == "weak_imag":
            op[((0, "c"), (0, "a"))] = complex(op.get(((0, "c"), (0, "a")), 0)).real + 1e-14j
        else:
            kind = "extra"
            op[((0, "c"), (1, "c"), (0, "a"))] = 0.3
    ctx.case(kind, repr(op), sample=dict(kind=kind, n=n, processes=len(op)))
    want = fock.dagger(op) == op
    keep = dict(op)
    try:
        finite.assert_hermitian(op)
        ok = True
        ctx.event("guard_accepted")
    except (AssertionError, ValueError):
        ok = False
        ctx.event("guard_rejected")
    ctx.check(ok == want, "the Hermiticity guard", accepted=ok, is_hermitian=want, op=op)
    ctx.check(op == keep, "the guard modified the operator")


WORKLOADS = [W("scales", w_scales, 2500, 50000), W("states", w_states, 6000, 150000), W("operators", w_operators, 5000, 120000), W("guard", w_guard, 3000, 60000)]
