"""C06: labels and indices of spin-orbitals are in one-to-one correspondence."""
from collections import OrderedDict

from impurityModel.ed.finite import c2i, i2c
from vm import gen
from vm.core import W


def layout(ctx):
    """Random ordered layout; keys are angular momenta or tuples of them (shared baths)."""
    ls = list(range(0, 5))
    ctx.rng.shuffle(ls)
    ls = ls[:ctx.int(1, 4)]
    keys = []
    while ls:
        if len(ls) > 1 and ctx.chance(0.25):
            k = ctx.int(2, len(ls))
            keys.append(tuple(ls[:k]))
            ls = ls[k:]
        else:
            x = ls.pop(0)
            keys.append((x,) if ctx.chance(0.05) else x)
    return OrderedDict((k, ctx.pick([0, 0, 1, 2, 3, 10, 14, ctx.int(0, 40)] + [ctx.int(90, 330)] * ctx.chance(0.4))) for k in keys) if ctx.chance(0.5) else {
        k: ctx.int(0, 12) for k in keys}


def judge(ctx, nb):
    labs = gen.labels(nb)
    n = len(labs)
    keep = list(nb.items())
    idx = {}
    for lab in labs:
        i = c2i(nb, lab)
        ctx.check(int(i) == i and 0 <= i < n, "index outside 0..N-1", layout=nb, label=lab, index=i, N=n)
        ctx.check(i not in idx, "two labels have the same index", layout=nb, index=i, a=idx.get(i), b=lab)
        idx[i] = lab
    for i, lab in enumerate(labs):  # documented order
        ctx.equal(idx[i], lab, "order of the spin-orbitals", layout=nb, index=i)
        got = i2c(nb, i)
        ctx.equal(got, lab, "label of an index", layout=nb, index=i)
        ctx.equal(c2i(nb, got), i, "index -> label -> index", layout=nb)
        ctx.event("labels_checked")
    ctx.check(list(nb.items()) == keep, "the layout was modified")
    return labs, n


def outside(ctx, nb, labs, n):
    flat = [x for k in nb for x in (k if isinstance(k, tuple) else (k,))]
    bad = []
    k, b = ctx.pick(list(nb.items()))
    bad += [(k, b), (k, b + ctx.int(1, 50)), (k, -1)]
    x = ctx.pick(flat)
    bad += [(x, 0, x + 1), (x, 1, -x - 1), (x, 2, 0), (x, -1, 0), (9, 0, 0), (9, 0)]
    l_new = next(i for i in range(10) if i not in flat)
    bad += [(l_new, 0, 0), (l_new, 0), (l_new, 1, -l_new)]
    for lab in bad:
        if lab in labs:
            continue
        ctx.raises(lambda: c2i(nb, lab), "a label outside the system was accepted", layout=nb, label=lab)
    for i in (n, n + 1, n + ctx.int(2, 100), -1, -ctx.int(2, 200)):
        ctx.raises(lambda: i2c(nb, i), "an index outside the system was accepted", layout=nb, index=i)


def w_random(ctx):
    nb = layout(ctx)
    ctx.case(repr(list(nb.items())), sample=dict(layout=list(nb.items())))
    labs, n = judge(ctx, nb)
    outside(ctx, nb, labs, n)


def w_small(ctx):
    """Enumerates all layouts with up to two shells (l <= 3, up to 3 baths) in both orders, and shared baths."""
    combos = []
    for l1 in range(4):
        for b1 in range(4):
            combos.append([(l1, b1)])
            for l2 in range(4):
                if l2 != l1:
                    combos.append([((l1, l2), b1)])
                    for b2 in range(4):
                        combos.append([(l1, b1), (l2, b2)])
    nb = OrderedDict(combos[ctx.index % len(combos)])
    ctx.case(repr(list(nb.items())))
    labs, n = judge(ctx, nb)
    outside(ctx, nb, labs, n)


WORKLOADS = [W("small", w_small, 4 * 4 * 13 + 48, 300), W("random", w_random, 1200, 20000)]
