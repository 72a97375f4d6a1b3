"""C07: the many-body basis contains exactly the allowed configurations, once each."""
import itertools
import json
import math
import os
import subprocess
import sys
from collections import OrderedDict

from impurityModel.ed.finite import get_basis
from vm import fock, gen
from vm.core import Skip, W


def reference(nb, val, dv, dc, tol, n0, impossible_is_empty=False):
    """Set of masks."""
    ix = gen.index_of(nb)
    n = gen.n_orb(nb)
    parts = []
    for l in nb:
        imp = [ix[(l, s, m)] for s in (0, 1) for m in range(-l, l + 1)]
        va = [ix[(l, b)] for b in range(val[l])]
        co = [ix[(l, b)] for b in range(val[l], nb[l])]
        part = []
        for ev in range(0, dv[l] + 1):
            for ec in range(0, dc[l] + 1):
                ni, nv, nc = n0[l] + ev - ec, val[l] - ev, ec
                if abs(ev - ec) > tol[l] or nv < 0:
                    continue
                if ni < 0 or ni > len(imp) or nc > len(co):
                    if impossible_is_empty:
                        continue
                    raise Skip()
                for a in itertools.combinations(imp, ni):
                    for b in itertools.combinations(va, nv):
                        for c in itertools.combinations(co, nc):
                            part.append(fock.mask_of(a + b + c))
        parts.append(part)
    out = [0]
    for part in parts:
        out = [x | y for x in out for y in part]
        if len(out) > 120000:
            raise Skip()
    return out, n


def estimate(nb, val, dv, dc, tol, n0):
    """The number of configurations."""
    out = 1
    for l in nb:
        c = lambda a, b: math.comb(a, b) if 0 <= b <= a else 0
        out *= sum(c(4 * l + 2, n0[l] + ev - ec) * c(val[l], val[l] - ev) * c(nb[l] - val[l], ec) for ev in range(dv[l] + 1) for ec in range(dc[l] + 1) if abs(ev - ec) <= tol[l])
    return out


def random_case(ctx, low=0, high=6000):
    for _ in range(200 if not low else 3000):
        ls = ctx.rng.sample([0, 0, 1, 1, 2, 2, 3], ctx.int(1, 3))
        ls = list(dict.fromkeys(ls))
        nb, val, dv, dc, tol, n0 = (OrderedDict() for _ in range(6))
        for l in ls:
            nb[l] = ctx.pick([0, 0, 1, 2, 3, 4, 6, 10])
            val[l] = ctx.int(0, nb[l]) if ctx.chance(0.6) else nb[l]
            dv[l] = ctx.pick([0, 1, 1, 2, 3, val[l] + 1])
            dc[l] = min(ctx.pick([0, 0, 1, 2, 3]), nb[l] - val[l])
            tol[l] = ctx.pick([0, 1, 1, 2, 3])
            full = 2 * (2 * l + 1)
            n0[l] = ctx.pick([full, full - 1, 0, 1, 2, ctx.int(0, full), full - 2]) if full > 2 else ctx.int(0, full)
            n0[l] = min(max(n0[l], 0), full)
        args = (nb, val, dv, dc, tol, n0)
        if not low <= estimate(*args) <= high:
            continue
        try:
            ref, n = reference(*args)
        except Skip:
            continue
        if low <= len(ref) <= high:
            return args, ref, n
    raise Skip()


def judge(ctx, args, ref, n):
    nb, val, dv, dc, tol, n0 = args
    keep = [list(d.items()) for d in args]
    got = get_basis(*args)
    ctx.check([list(d.items()) for d in args] == keep, "an argument was modified")
    ctx.check(len(ref) == len(set(ref)), "reference is a set")
    masks = [fock.from_bytes(b, n) for b in got]
    info = dict(args=keep)
    ctx.check(all(isinstance(b, bytes) and len(b) == (n + 7) // 8 for b in got), "the product states are bytes of the right width", **info)
    ctx.check(len(masks) == len(set(masks)), "a configuration occurs twice", n_got=len(masks), n_distinct=len(set(masks)), **info)
    extra, miss = set(masks) - set(ref), set(ref) - set(masks)
    ctx.check(not extra, "a configuration outside the constraints", example=[fock.occ_of(m) for m in list(extra)[:2]], n=len(extra), **info)
    ctx.check(not miss, "an allowed configuration is missing", example=[fock.occ_of(m) for m in list(miss)[:2]], n=len(miss), **info)
    total = sum(n0.values()) + sum(val.values())
    ctx.check({m.bit_count() for m in masks} <= {total}, "electron number differs", total=total, **info)
    again = get_basis(*args)
    ctx.check(tuple(again) == tuple(got), "order or content differs in a second call")
    ctx.event("configurations_checked", len(masks))
    if len(masks) > 1:
        ctx.event("multi_configuration_bases")
    return got


def w_random(ctx):
    args, ref, n = random_case(ctx)
    ctx.case(repr([list(d.items()) for d in args]), sample=dict(args=[list(d.items()) for d in args], size=len(ref)))
    judge(ctx, args, ref, n)


def w_shipped(ctx):
    """Layouts as used by the programs: 2p and 3d shell, 10 or 20 bath states, with and without conduction bath."""
    n3d = ctx.int(0, 10)
    nd = ctx.pick([10, 10, 20, 4, 6])
    nv = ctx.pick([10, nd]) if nd >= 10 else ctx.int(0, nd)
    nb = OrderedDict([(1, 0), (2, nd)])
    val = OrderedDict([(1, 0), (2, nv)])
    dv = OrderedDict([(1, 0), (2, ctx.pick([0, 1, 1, 2]))])
    dc = OrderedDict([(1, 0), (2, min(nd - nv, ctx.pick([0, 0, 1])))])
    tol = OrderedDict([(1, 0), (2, ctx.pick([0, 1, 2, 3]))])
    n0 = OrderedDict([(1, 6), (2, n3d)])
    args = (nb, val, dv, dc, tol, n0)
    ref, n = reference(*args)
    if len(ref) > 9000:
        raise Skip()
    ctx.case(repr([list(d.items()) for d in args]), sample=dict(args=[list(d.items()) for d in args], size=len(ref)))
    judge(ctx, args, ref, n)


def w_big(ctx):
    """Many thousand configurations."""
    args, ref, n = random_case(ctx, *ctx.pick([(6000, 20000), (20000, 40000), (66000, 110000)]))
    ctx.case(repr([list(d.items()) for d in args]), sample=dict(args=[list(d.items()) for d in args], size=len(ref)))
    judge(ctx, args, ref, n)
    ctx.event("large_bases")


def w_overfull(ctx):
    """Constraints that need more electrons than orbitals (or fewer than none) are never silently mis-counted."""
    l = ctx.int(0, 2)
    full = 2 * (2 * l + 1)
    nb = OrderedDict([(l, ctx.int(0, 4))])
    val = OrderedDict([(l, ctx.int(0, nb[l]))])
    kind = ctx.pick(["con", "val", "imp"])
    dv, dc, tol, n0 = (OrderedDict([(l, x)]) for x in (0, 0, 5, ctx.int(0, full)))
    if kind == "con":
        dc[l] = nb[l] - val[l] + 1
        n0[l] = full
    elif kind == "val":
        val[l] = nb[l] + 1
    else:
        n0[l] = full + 1
    args = (nb, val, dv, dc, tol, n0)
    ctx.case(kind, repr([list(d.items()) for d in args]))
    if kind == "val":
        ctx.raises(lambda: get_basis(*args), "more valence bath states than bath states were accepted", args=[list(d.items()) for d in args])
        return
    try:
        got = get_basis(*args)
    except Exception:
        ctx.event("rejections_observed")
        return
    ref, n = reference(*args, impossible_is_empty=True)
    ctx.check(sorted(fock.from_bytes(b, n) for b in got) == sorted(ref), "over-occupied constraints are mis-counted", args=[list(d.items()) for d in args])


CHILD = """
import json, sys
from collections import OrderedDict
import io, os
so = os.dup(1); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
from impurityModel.ed.finite import get_basis
out = []
for args in json.loads(sys.argv[1]):
    b = get_basis(*[OrderedDict((int(k), v) for k, v in d) for d in args])
    out.append([x.hex() for x in b])
sys.stdout.flush(); os.dup2(so, 1)
print(json.dumps(out))
"""


def w_hashseeds(ctx):
    """Every run (hash randomisation seed) produces the same states in the same order."""
    cases = []
    while len(cases) < 6:
        args, ref, n = random_case(ctx)
        if 1 < len(ref) <= 1500:
            cases.append((args, ref, n))
    ctx.case(repr([[list(d.items()) for d in c[0]] for c in cases]))
    mine = [[x.hex() for x in judge(ctx, *c)] for c in cases]
    arg = json.dumps([[list(d.items()) for d in c[0]] for c in cases])
    for hs in ("0", str(ctx.int(1, 4294967295))):
        p = subprocess.run([sys.executable, "-c", CHILD, arg], env=dict(os.environ, PYTHONHASHSEED=hs), capture_output=True, text=True, timeout=120)
        ctx.check(p.returncode == 0, "get_basis failed in a separate process", err=p.stderr[-800:])
        ctx.check(json.loads(p.stdout) == mine, "the order of the basis depends on the run (hash seed %s)" % hs)
        ctx.event("runs_compared")


WORKLOADS = [W("random", w_random, 900, 12000), W("shipped", w_shipped, 60, 300), W("big", w_big, 10, 120), W("overfull", w_overfull, 200, 2000), W("hashseeds", w_hashseeds, 16, 120)]
