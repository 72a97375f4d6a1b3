"""Generators of systems, operators, states and restrictions (masks; see fock.py)."""
import itertools

from vm import fock


def mask(ctx, n, nel=None):
    if nel is None:
        nel = ctx.int(0, n)
    return fock.mask_of(ctx.rng.sample(range(n), nel))


def psi(ctx, n, k, nel=None, kind=None, lo=0.05):
    out = {}
    for _ in range(k):
        out[mask(ctx, n, nel)] = ctx.coef(kind, lo=lo)
    return out


def normalised(p):
    s = fock.norm2(p) ** 0.5
    return {k: complex(v) / s for k, v in p.items()}


def process(ctx, orbs, length):
    return tuple((ctx.pick(orbs), ctx.pick("ca")) for _ in range(length))


def op_general(ctx, n, nproc, maxlen=5, orbs=None, kind=None):
    """Arbitrary products of creation and annihilation operators."""
    orbs = list(range(n)) if orbs is None else orbs
    out = {}
    for _ in range(nproc):
        out[process(ctx, orbs, ctx.pick([1, 1, 2, 2, 2, 3, 4, 4] + [ctx.int(1, maxlen)] * 2))] = ctx.coef(kind)
    return out


def op_conserving(ctx, n, n1, n2, orbs=None, kind=None):
    """Particle-number conserving one- and two-body terms (not Hermitian)."""
    orbs = list(range(n)) if orbs is None else list(orbs)
    out = {}
    for _ in range(n1):
        out[((ctx.pick(orbs), "c"), (ctx.pick(orbs), "a"))] = ctx.coef(kind)
    if len(orbs) > 1:
        for _ in range(n2):
            i, j = ctx.rng.sample(orbs, 2)
            k, l = ctx.rng.sample(orbs, 2)
            out[((i, "c"), (j, "c"), (k, "a"), (l, "a"))] = ctx.coef(kind)
    return out


def hermitian(ctx, n, n1, n2, orbs=None, kind=None, diag=True):
    """Random exactly Hermitian Hamiltonian in operator form."""
    op = op_conserving(ctx, n, n1, n2, orbs, kind)
    out = {}
    for p, v in op.items():
        q = next(iter(fock.dagger({p: 1})))
        if q == p:
            out[p] = out.get(p, 0) + complex(v).real
        else:
            out[p] = out.get(p, 0) + v
            out[q] = out.get(q, 0) + (v.conjugate() if isinstance(v, complex) else v)
    if diag:
        for i in range(n) if orbs is None else orbs:
            p = ((i, "c"), (i, "a"))
            out[p] = complex(out.get(p, 0)).real + round(ctx.rng.uniform(-2, 2), 3)
    # random order of the terms
    items = list(out.items())
    ctx.rng.shuffle(items)
    return {k: v for k, v in items if v != 0}


def big(ctx, lo, hi, nmax=16, dense=0):
    """A system with many product states: (n, Hermitian operator that connects most of them, all masks)."""
    import math

    options = [(n, k) for n in range(6, nmax + 1) for k in range(1, n) if lo <= math.comb(n, k) <= hi]
    n, k = ctx.pick(options)
    op = hermitian(ctx, n, 2 * n * (1 + dense), ctx.int(0, n) + n * dense, kind=ctx.pick([None, "float", "complex"]))
    for i in range(n - 1):  # connected
        v = ctx.coef("float", lo=0.3)
        for p in (((i, "c"), (i + 1, "a")), ((i + 1, "c"), (i, "a"))):
            op[p] = v
    return n, op, fock.all_masks(n, k)


def restrictions(ctx, n, around=None, count=None):
    """Dictionary frozenset(orbitals) -> (lo, hi). 'around': masks which should tend to be allowed."""
    count = ctx.pick([1, 1, 2, 2, 3, 4]) if count is None else count
    out = {}
    for _ in range(count):
        size = ctx.pick([0, 1, 2, n // 2, n]) if ctx.chance(0.3) else ctx.int(0, n)
        s = frozenset(ctx.rng.sample(range(n), min(size, n)))
        if around and ctx.chance(0.85):
            occ = (ctx.pick(around) & fock.mask_of(s)).bit_count()
            lo, hi = occ - ctx.pick([0, 0, 1, 1, 2]), occ + ctx.pick([0, 0, 1, 1, 2])
        else:
            lo = ctx.int(0, len(s))
            hi = ctx.int(lo, len(s) + 1)
        out[s] = (lo, hi)
    return out


def layout(ctx, ls=None, max_bath=4):
    """Ordered layout {l: number of bath states}."""
    ls = ls or ctx.rng.sample(range(0, 4), ctx.int(1, 3))
    return {l: ctx.int(0, max_bath) for l in ls}


def n_orb(nBaths):
    n = 0
    for l, b in nBaths.items():
        for x in (l if isinstance(l, tuple) else (l,)):
            n += 2 * (2 * x + 1)
        n += b
    return n


def labels(nBaths):
    """All labels in index order."""
    out = []
    for l in nBaths:
        for x in (l if isinstance(l, tuple) else (l,)):
            out += [(x, s, m) for s in (0, 1) for m in range(-x, x + 1)]
    for l, b in nBaths.items():
        out += [(l, k) for k in range(b)]
    return out


def index_of(nBaths):
    return {lab: i for i, lab in enumerate(labels(nBaths))}
