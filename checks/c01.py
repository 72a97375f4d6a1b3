"""C01: product-state representations are lossless and interchangeable."""
import itertools

from bitarray import bitarray

from impurityModel.ed import product_state_representation as psr
from vm import fock, gen
from vm.core import W

KINDS = ("tuple", "str", "int", "bitarray", "bytes")


def reps(mask, n):
    """The documented representations, built independently of the code under test."""
    occ = fock.occ_of(mask)
    s = "".join("1" if mask >> i & 1 else "0" for i in range(n))
    return dict(tuple=occ, str=s, int=sum(1 << (n - 1 - i) for i in occ), bitarray=bitarray([bool(mask >> i & 1) for i in range(n)]),
                bytes=fock.to_bytes(mask, n))


def convert(a, b, x, n):
    f = getattr(psr, "%s2%s" % (a, b))
    return f(x) if a in ("str", "bitarray") else f(x, n)


def same(kind, x, want):
    return type(x).__name__ == kind and len_ok(kind, x, want) and x == want


def len_ok(kind, x, want):
    return kind == "int" or len(x) == len(want)


def check_pair(ctx, a, b, r, n):
    x = r[a].copy() if a == "bitarray" else r[a]
    y = convert(a, b, x, n)
    ctx.event("conversions")
    ctx.check(same(b, y, r[b]), "%s -> %s gives another occupation" % (a, b), n=n, arg=r[a], got=y, want=r[b])
    if a == "bitarray":
        ctx.check(x == r[a], "%s -> %s modified its argument" % (a, b), n=n, before=r[a], after=x)
        if b == "bitarray":
            return
    if b == "bitarray" and n:
        # The returned bitarray is a value of its own: using it must not influence later conversions.
        y.invert()
        z = convert(a, b, r[a], n)
        ctx.check(same(b, z, r[b]), "%s -> bitarray changes after the previous result was modified" % a, n=n, got=z, want=r[b])


def all_pairs(ctx, mask, n):
    r = reps(mask, n)
    for a, b in itertools.permutations(KINDS, 2):
        check_pair(ctx, a, b, r, n)
    return r


def w_exhaustive(ctx):
    n = ctx.index + 1
    seen = {k: set() for k in KINDS}
    for mask in range(1 << n):
        r = all_pairs(ctx, mask, n)
        for k in KINDS:
            seen[k].add(r[k].to01() if k == "bitarray" else r[k])
    ctx.case("exhaustive", n, sample="all %d occupations of %d spin-orbitals, all 20 conversions" % (1 << n, n))
    ctx.check(all(len(v) == 1 << n for v in seen.values()), "two occupations share a representation")


def w_random(ctx):
    n = ctx.size(1, 700, 80, 0.5)
    style = ctx.pick(["random", "sparse", "dense", "empty", "full", "edges", "lowhalf"])
    if style == "random":
        m = gen.mask(ctx, n)
    elif style == "sparse":
        m = gen.mask(ctx, n, min(n, ctx.int(0, 3)))
    elif style == "dense":
        m = gen.mask(ctx, n, max(0, n - ctx.int(0, 3)))
    elif style == "empty":
        m = 0
    elif style == "full":
        m = (1 << n) - 1
    elif style == "edges":
        m = fock.mask_of(i for i in {0, n - 1, n // 2, min(7, n - 1), min(8, n - 1), min(63, n - 1), min(64, n - 1)} if ctx.chance(0.6))
    else:
        m = gen.mask(ctx, max(1, n // 2))
    ctx.case(n, m, sample="n=%d %s %s" % (n, style, fock.occ_of(m)[:20]))
    r = all_pairs(ctx, m, n)
    # A long chain of conversions
    kind, x = ctx.pick(KINDS), None
    x = r[kind]
    path = [kind]
    for _ in range(ctx.int(2, 25)):
        nxt = ctx.pick([k for k in KINDS if k != kind])
        x = convert(kind, nxt, x, n)
        kind = nxt
        path.append(kind)
        ctx.event("chain_steps")
        ctx.check(same(kind, x, r[kind]), "conversion chain lost the occupation", n=n, path=path, got=x, want=r[kind])


def w_distinct(ctx):
    """Neighbouring occupations (one bit differs) stay distinguishable in every representation."""
    n = ctx.size(2, 400, 70)
    m = gen.mask(ctx, n)
    ctx.case(n, m, sample="n=%d, occupation %s and its single-bit neighbours" % (n, fock.occ_of(m)[:20]))
    s0 = psr.tuple2str(fock.occ_of(m), n)
    outs = {k: [] for k in ("int", "bytes", "tuple")}
    orbs = ctx.rng.sample(range(n), min(n, 12))
    for i in [None] + orbs:
        s = s0 if i is None else s0[:i] + ("0" if s0[i] == "1" else "1") + s0[i + 1:]
        for k in outs:
            outs[k].append(convert("str", k, s, n))
            ctx.event("conversions")
    for k, v in outs.items():
        ctx.check(len(set(v)) == len(orbs) + 1, "different occupations share a representation (%s)" % k, n=n, base=s0, orbs=orbs)


WORKLOADS = [W("exhaustive", w_exhaustive, 10, 12), W("random", w_random, 6000, 100000), W("distinct", w_distinct, 1500, 20000)]
