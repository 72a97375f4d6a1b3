"""C02: create and remove obey the fermion algebra in every representation."""
from bitarray import bitarray

from checks.c01 import reps
from impurityModel.ed import create, remove
from vm import fock, gen
from vm.core import W

KINDS = ("tuple", "str", "int", "bitarray", "bytes")


def act(kind, action, i, x, n):
    """Returns (new representation or None if the amplitude is zero, amplitude) of the code under test."""
    mod = create if action == "c" else remove
    f = getattr(mod, "u" + kind)
    if kind in ("int", "bytes"):
        y, amp = f(n, i, x)
    elif kind == "bitarray":
        y = x.copy()
        amp = f(i, y)
    else:
        y, amp = f(i, x)
    return y, amp


def check_all(ctx, mask, i, n, r=None):
    r = r or reps(mask, n)
    for action in "ca":
        want = fock.apply_process(mask, ((i, action),))
        rw = reps(want[0], n) if want else None
        for kind in KINDS:
            y, amp = act(kind, action, i, r[kind], n)
            ctx.event("operator_actions")
            name = ("create." if action == "c" else "remove.") + "u" + kind
            if want is None:
                ctx.check(amp == 0, "%s: amplitude should be 0" % name, n=n, i=i, state=r[kind], amp=amp)
                if kind == "bitarray":
                    ctx.check(y == r[kind], "%s: blocked action changed the state" % name, n=n, i=i, state=r[kind], after=y)
            else:
                ctx.check(amp == want[1], "%s: wrong amplitude" % name, n=n, i=i, state=r[kind], amp=amp, want=want[1])
                ctx.check(type(y).__name__ == kind and y == rw[kind], "%s: wrong occupation" % name, n=n, i=i, state=r[kind], got=y, want=rw[kind])


def w_exhaustive(ctx):
    n = ctx.index + 1
    for mask in range(1 << n):
        r = reps(mask, n)
        for i in range(n):
            check_all(ctx, mask, i, n, r)
    ctx.case("exhaustive", n, sample="all occupations and orbitals of %d spin-orbitals, 5 representations, create and remove" % n)


def w_random(ctx):
    n = ctx.size(1, 420, 80)
    m = gen.mask(ctx, n) if ctx.chance(0.7) else gen.mask(ctx, n, ctx.pick([0, n, min(n, 2), max(0, n - 2)]))
    r = reps(m, n)
    orbs = set(ctx.rng.sample(range(n), min(n, 5))) | {0, n - 1, ctx.pick([0, 7, 8, 63, 64, 15, 16]) % n}
    ctx.case(n, m, sample="n=%d occupation %s orbitals %s" % (n, fock.occ_of(m)[:20], sorted(orbs)))
    for i in orbs:
        check_all(ctx, m, i, n, r)


def w_anticommute(ctx):
    """Algebra evaluated with the code under test alone."""
    n = ctx.size(2, 420, 40)
    m = gen.mask(ctx, n)
    r = reps(m, n)
    i, j = ctx.int(0, n - 1), ctx.int(0, n - 1)
    if ctx.chance(0.15):
        j = i
    ctx.case(n, m, i, j, sample="n=%d i=%d j=%d occupation %s" % (n, i, j, fock.occ_of(m)[:20]))

    def two(kind, a1, i1, a2, i2):
        """a1_{i1} a2_{i2} |state>"""
        y, s2 = act(kind, a2, i2, r[kind], n)
        if s2 == 0:
            return None, 0
        y, s1 = act(kind, a1, i1, y, n)
        return (y, s1 * s2) if s1 else (None, 0)

    for kind in KINDS:
        for a1, a2 in (("c", "c"), ("a", "a"), ("a", "c"), ("c", "a")):
            y1, s1 = two(kind, a1, i, a2, j)
            y2, s2 = two(kind, a2, j, a1, i)
            ctx.event("anticommutators")
            delta = 1 if (i == j and a1 != a2) else 0
            total = {}
            for y, s in ((y1, s1), (y2, s2)):
                if s:
                    key = y.to01() if kind == "bitarray" else y
                    total[key] = total.get(key, 0) + s
            total = {k: v for k, v in total.items() if v}
            x0 = r[kind].to01() if kind == "bitarray" else r[kind]
            ctx.equal(total, {x0: 1} if delta else {}, "anticommutator {%s_i, %s_j} is not delta" % (a1, a2), kind=kind, n=n, i=i, j=j, state=x0)


def w_chain(ctx):
    """A random walk of creations and removals; one bitarray is updated in place all the way."""
    n = ctx.size(1, 420, 70)
    m = gen.mask(ctx, n)
    bits = bitarray([bool(m >> i & 1) for i in range(n)])
    b = fock.to_bytes(m, n)
    steps = ctx.int(3, 40)
    ctx.case(n, m, steps, sample="n=%d, %d steps from %s" % (n, steps, fock.occ_of(m)[:20]))
    for _ in range(steps):
        i, a = ctx.int(0, n - 1), ctx.pick("ca")
        want = fock.apply_process(m, ((i, a),))
        amp = (create if a == "c" else remove).ubitarray(i, bits)
        b2, amp2 = (create if a == "c" else remove).ubytes(n, i, b)
        ctx.event("chain_steps")
        ctx.check(amp == amp2 == (want[1] if want else 0), "sign in a chain of updates", n=n, i=i, a=a, amp=amp, amp2=amp2, want=want)
        if want:
            m, b = want[0], b2
        ctx.check(bits == reps(m, n)["bitarray"] and b == fock.to_bytes(m, n), "occupation in a chain of updates", n=n, i=i, a=a, bits=bits)


WORKLOADS = [W("exhaustive", w_exhaustive, 8, 11), W("random", w_random, 4000, 60000),
             W("anticommute", w_anticommute, 4000, 60000), W("chain", w_chain, 1500, 20000)]
