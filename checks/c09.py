"""C09: the active space is exactly the closure under the Hamiltonian."""
import json
import os
import pickle
import subprocess
import sys
import tempfile

from impurityModel.ed.finite import expand_basis
from vm import fock, gen, mpi
from vm.core import Skip, W


def make(ctx, limit=250):
    for _ in range(50):
        n = ctx.size(2, 90, 11, 0.85)
        orbs = list(range(n)) if n <= 11 else ctx.rng.sample(range(n), 9)
        kind = ctx.pick(["float", "complex", None])
        r = ctx.rng.random()
        if r < 0.5:
            op = gen.hermitian(ctx, n, ctx.int(1, 8), ctx.int(0, 6), orbs, kind, diag=ctx.chance(0.6))
        elif r < 0.85:
            op = gen.op_conserving(ctx, n, ctx.int(1, 8), ctx.int(0, 6), orbs, kind)
        else:
            op = gen.op_general(ctx, n, ctx.int(1, 6), 4, orbs, kind)
        nel = ctx.int(0, n)
        pool = list(dict.fromkeys(gen.mask(ctx, n, nel) for _ in range(ctx.int(1, 4))))
        restr = gen.restrictions(ctx, n, pool) if ctx.chance(0.6) else None
        rm = fock.restr_masks(restr)
        try:
            reach, rows = fock.closure(op, pool, rm, limit)
        except RuntimeError:
            continue
        return n, op, pool, restr, reach, rows
    raise Skip()


def brows(rows, n):
    return {fock.to_bytes(m, n): fock.psi_to_bytes(r, n) for m, r in rows.items()}


def judge_basis(ctx, n, got, start, reach, /, **info):
    masks = [fock.from_bytes(b, n) for b in got]
    ctx.check(len(set(masks)) == len(masks), "a product state occurs twice in the active space", n_got=len(masks), n_distinct=len(set(masks)), **info)
    miss, extra = set(reach) - set(masks), set(masks) - set(reach)
    ctx.check(not miss, "a reachable product state is missing", example=[fock.occ_of(m) for m in list(miss)[:3]], n_missing=len(miss), **info)
    ctx.check(not extra, "a product state is not reachable within the restrictions", example=[fock.occ_of(m) for m in list(extra)[:3]], n_extra=len(extra), **info)
    ctx.check(masks[:len(start)] == list(start), "the starting states are not first", got=[fock.occ_of(m) for m in masks[:len(start)]], **info)
    ctx.event("active_spaces_checked")
    if len(masks) > len(start):
        ctx.event("expanded_spaces")
        ctx.event("states_reached", len(masks) - len(start))


def judge_store(ctx, n, op, restr, basis, stores, before, what, /, **info):
    """stores: list (one per process)."""
    fop, rm = fock.Op(op), fock.restr_masks(restr)
    owner = {}
    for r, st in enumerate(stores):
        for b, row in st.items():
            ctx.check(b not in owner, "%s: a product state is stored by two processes" % what, state=b, a=owner.get(b), b=r, **info)
            owner[b] = r
            m = fock.from_bytes(b, n)
            ctx.close_dict(row, fock.psi_to_bytes(fop.row(m, rm), n), "%s: stored operator action is wrong" % what, rtol=1e-11, atol=1e-12, cut2=1e-12, state=fock.occ_of(m), **info)
            ctx.event("store_entries_checked")
    for b in basis:
        ctx.check(b in owner, "%s: the stored action is incomplete for the active space" % what, state=b, **info)
    for r, old in enumerate(before):
        for b in old:
            ctx.check(b in stores[r], "%s: a previously stored entry was lost" % what, **info)


def prefill(ctx, n, op, restr, rows, k):
    """Partial, correct stores for k processes (also entries outside the active space)."""
    fop, rm = fock.Op(op), fock.restr_masks(restr)
    stores = [dict() for _ in range(k)]
    p = ctx.pick([0, 0.2, 0.5, 0.9, 1])
    items = list(brows(rows, n).items())
    ctx.rng.shuffle(items)
    for b, r in items:
        if ctx.chance(p):
            stores[ctx.int(0, k - 1) if ctx.chance(0.8) else k - 1][b] = dict(r)
    for _ in range(ctx.int(0, 4)):
        m = gen.mask(ctx, n)
        b = fock.to_bytes(m, n)
        if m not in rows:
            r = fock.psi_to_bytes({x: v for x, v in fop.row(m, rm).items() if abs(v) ** 2 >= 1e-12}, n)
            if not any(b in s for s in stores):
                stores[ctx.int(0, k - 1)][b] = r
    return stores


def sig(n, op, pool, restr):
    return (n, sorted(op.items(), key=repr), sorted(pool), repr(restr))


def w_large(ctx):
    """Active spaces of hundreds and thousands of product states."""
    n, op, masks = gen.big(ctx, 300, ctx.pick([4000, 4000, 9000]), dense=ctx.pick([0, 0, 8]))
    pool = ctx.rng.sample(masks, ctx.pick([1, 2, 5, ctx.int(1, len(masks))]))
    restr = gen.restrictions(ctx, n, pool) if ctx.chance(0.3) else None
    reach, rows = fock.closure(op, pool, fock.restr_masks(restr), 10000)
    mode = ctx.pick(["serial", "H_build"])
    store = prefill(ctx, n, op, restr, rows, 1)[0] if ctx.chance(0.5) else {}
    before = {k: dict(v) for k, v in store.items()}
    ctx.case(sig(n, op, pool, restr), mode, len(store), sample=dict(n=n, start=len(pool), reach=len(reach), restrictions=restr, mode=mode, prefilled=len(store)))
    info = dict(n=n, n_start=len(pool), reach=len(reach), restrictions=restr, mode=mode, prefilled=len(before))
    got = expand_basis(n, store, op, tuple(fock.to_bytes(m, n) for m in pool), restr, mode)
    judge_basis(ctx, n, got, pool, reach, **info)
    judge_store(ctx, n, op, restr, got, [store], [before], "store (%s)" % mode, **info)
    ctx.check(all(store[b] == r for b, r in before.items()), "a stored entry was changed", **info)
    ctx.event("large_spaces")


def w_local(ctx):
    n, op, pool, restr, reach, rows = make(ctx)
    mode = ctx.pick(["serial", "H_build"])
    store = prefill(ctx, n, op, restr, rows, 1)[0]
    before = {k: dict(v) for k, v in store.items()}
    bstart = tuple(fock.to_bytes(m, n) for m in pool)
    ctx.case(sig(n, op, pool, restr), mode, len(store), sample=dict(n=n, start=len(pool), reach=len(reach), restrictions=restr, mode=mode, prefilled=len(store)))
    keep = (dict(op), None if restr is None else dict(restr))
    got = expand_basis(n, store, op, bstart, restr, mode)
    info = dict(n=n, op=op, start=[fock.occ_of(m) for m in pool], restrictions=restr, mode=mode, prefilled=len(before))
    judge_basis(ctx, n, got, pool, reach, **info)
    judge_store(ctx, n, op, restr, got, [store], [before], "store (%s)" % mode, **info)
    ctx.check(all(store[b] == r for b, r in before.items()), "a stored entry was changed", **info)
    ctx.check((dict(op), None if restr is None else dict(restr)) == keep, "an argument was modified")
    ctx.check(bstart == tuple(fock.to_bytes(m, n) for m in pool), "the start was modified")
    # order: reproducible, independent of what was stored before
    other = "H_build" if mode == "serial" else "serial"
    st2 = {}
    again = expand_basis(n, st2, op, list(bstart), restr, other)
    ctx.equal(tuple(again), tuple(got), "the order depends on the mode or on what was stored before", **info)
    ctx.event("orders_compared")
    # grow: a second expansion with the same store and another start
    pool2 = list(dict.fromkeys([ctx.pick(sorted(reach)), gen.mask(ctx, n, ctx.int(0, n))]))
    try:
        reach2, _ = fock.closure(op, pool2, fock.restr_masks(restr), 500)
    except RuntimeError:
        return
    got = expand_basis(n, store, op, tuple(fock.to_bytes(m, n) for m in pool2), restr, mode)
    judge_basis(ctx, n, got, pool2, reach2, **info)
    judge_store(ctx, n, op, restr, got, [store], [before], "re-used store", **info)


def w_mpi(ctx):
    ranks = ctx.pick([2, 3, 3, 4, 5])
    tasks, wants = [], []
    while len(tasks) < 12:
        n, op, pool, restr, reach, rows = make(ctx)
        stores = prefill(ctx, n, op, restr, rows, ranks)
        rounds, rr = [], []
        for _ in range(ctx.int(0, 2)):
            p2 = list(dict.fromkeys([ctx.pick(sorted(reach)), gen.mask(ctx, n, ctx.int(0, n))]))
            try:
                r2, _ = fock.closure(op, p2, fock.restr_masks(restr), 300)
            except RuntimeError:
                continue
            rounds.append([fock.to_bytes(m, n) for m in p2])
            rr.append((p2, r2))
        mode = "H_build" if ctx.chance(0.85) else "serial"
        tasks.append(("expand", dict(n=n, op=op, basis0=[fock.to_bytes(m, n) for m in pool], restrictions=restr, stores=stores, mode=mode, rounds=rounds)))
        wants.append((n, op, restr, [(pool, reach)] + rr, stores, mode))
    ctx.case(ranks, repr(tasks), sample=dict(ranks=ranks, tasks=len(tasks)))
    out = mpi.run(ctx, tasks, ranks, delay=ctx.pick([None, (0.3, 0.002), (0.1, 0.01)]))
    for (n, op, restr, steps, stores, mode), res in zip(wants, out):
        for i, (start, reach) in enumerate(steps):
            info = dict(ranks=ranks, mode=mode, step=i, n=n, op=op, restrictions=restr)
            for r in range(ranks):
                judge_basis(ctx, n, res[r][i][0], start, reach, rank=r, **info)
                ctx.equal(res[r][i][0], res[0][i][0], "the order of the active space differs between processes", rank=r, **info)
                ctx.event("orders_compared")
            if mode == "H_build":
                judge_store(ctx, n, op, restr, res[0][i][0], [res[r][i][1] for r in range(ranks)], stores, "distributed store", **info)
            else:
                for r in range(ranks):
                    judge_store(ctx, n, op, restr, res[0][i][0], [res[r][i][1]], [stores[r]], "serial store on rank %d" % r, **info)
        # the order of the serial expansion is the same
        serial = expand_basis(n, {}, op, tuple(fock.to_bytes(m, n) for m in steps[0][0]), restr, "serial")
        ctx.equal(tuple(res[0][0][0]), tuple(serial), "the order differs between one and %d processes" % ranks, n=n, op=op, restrictions=restr)


CHILD = """
import sys, os, pickle
so = os.dup(1); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
from impurityModel.ed.finite import expand_basis
out = []
for n, op, start, restr in pickle.load(open(sys.argv[1], 'rb')):
    out.append([expand_basis(n, {}, op, start, restr, mode) for mode in ('serial', 'H_build')])
pickle.dump(out, open(sys.argv[2], 'wb'))
"""


def w_hashseeds(ctx):
    cases, mine = [], []
    while len(cases) < 25:
        n, op, pool, restr, reach, rows = make(ctx)
        start = tuple(fock.to_bytes(m, n) for m in pool)
        if len(reach) - len(pool) < 2:
            continue
        cases.append((n, op, start, restr))
        mine.append([expand_basis(n, {}, op, start, restr, mode) for mode in ("serial", "H_build")])
    for _ in range(2):  # many new product states at once
        n, op, masks = gen.big(ctx, 1500, 4000, dense=8)
        cases.append((n, op, (fock.to_bytes(ctx.pick(masks), n),), None))
        mine.append([expand_basis(n, {}, op, cases[-1][2], None, mode) for mode in ("serial", "H_build")])
    ctx.case(repr(cases))
    d = tempfile.mkdtemp(dir=os.environ.get("VM_SCRATCH"))
    pickle.dump(cases, open(os.path.join(d, "in"), "wb"))
    for hs in ("0", str(ctx.int(1, 4294967295))):
        p = subprocess.run([sys.executable, "-c", CHILD, os.path.join(d, "in"), os.path.join(d, "out")], env=dict(os.environ, PYTHONHASHSEED=hs), capture_output=True, text=True, timeout=200)
        ctx.check(p.returncode == 0, "expand_basis failed in a separate process", err=p.stderr[-800:])
        ctx.check(pickle.load(open(os.path.join(d, "out"), "rb")) == mine, "the order of the active space depends on the run (hash seed %s)" % hs)
        ctx.event("orders_compared", len(cases))
        ctx.event("hash_seeds_compared")


WORKLOADS = [W("local", w_local, 6000, 80000), W("large", w_large, 32, 400), W("mpi", w_mpi, 16, 120, first=True), W("hashseeds", w_hashseeds, 8, 60)]
