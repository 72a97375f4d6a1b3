"""C21: work and stored data are distributed over processes exactly once."""
import collections

import numpy as np

from impurityModel.ed import finite, mpi_comm
from vm import fock, gen, mpi
from vm.core import Skip, W
from checks import c09


def judge_jobs(ctx, ranks, tasks, /, **info):
    per = [finite.get_job_tasks(r, ranks, tasks) for r in range(ranks)]
    want = collections.Counter(repr(t) for t in tasks)
    got = collections.Counter(repr(t) for p in per for t in p)
    ctx.check(got == want, "tasks are not assigned exactly once", lost=list((want - got).items())[:5], twice=list((got - want).items())[:5], ranks=ranks, n_tasks=len(tasks), **info)
    n = [len(p) for p in per]
    ctx.check(max(n) - min(n) <= 1, "loads differ by more than one", loads=n, ranks=ranks, n_tasks=len(tasks), **info)
    ctx.event("assignments_checked")
    ctx.event("tasks_assigned", len(tasks))
    if len(tasks) < ranks:
        ctx.event("fewer_tasks_than_processes")
    if len(tasks) == 0:
        ctx.event("no_tasks")


def w_exhaustive(ctx):
    """All numbers of tasks for one number of processes."""
    ranks = ctx.index + 1
    ctx.case("exhaustive", ranks)
    for n in range(0, 130):
        judge_jobs(ctx, ranks, range(n))


def w_tasks(ctx):
    """Large numbers and other kinds of task lists."""
    for _ in range(5):
        ranks = ctx.pick([1, 2, 3, 7, ctx.int(1, 64), ctx.int(1, 700)])
        n = ctx.pick([0, 1, ranks - 1, ranks, ranks + 1, 2 * ranks - 1, ctx.int(0, 40), ctx.int(0, 3000)])
        kind = ctx.pick(["range", "list", "tuple", "labels", "repeated", "array", "offset"])
        tasks = {"range": range(n), "list": list(range(n)), "tuple": tuple(range(n)), "labels": [("t", i) for i in range(n)], "repeated": [i % 3 for i in range(n)],
                 "array": np.arange(n), "offset": range(5, 5 + 3 * n, 3)}[kind]
        ctx.case(ranks, n, kind, sample=dict(ranks=ranks, tasks=n, kind=kind))
        judge_jobs(ctx, ranks, tasks, kind=kind)


def value(ctx):
    return ctx.pick([1, -2.5, 1 + 2j, "x", None, (1, 2), {b"a": 1.5, b"b": 2j}, {}, [1, 2], np.float64(0.3)])


def dicts(ctx, ranks):
    """Disjoint dictionaries of unequal sizes."""
    out, k = [], 0
    style = ctx.pick(["mixed", "one", "empty", "equal", "mixed"])
    for r in range(ranks):
        n = {"mixed": ctx.pick([0, 1, 2, ctx.int(0, 60)]), "one": 37 if r == ranks - 1 else 0, "empty": 0, "equal": 6}[style]
        d = {}
        for _ in range(n):
            k += 1
            d[ctx.pick([k, "k%d" % k, bytes([k % 256, k // 256]), (k, "c")])] = value(ctx)
        out.append(d)
    return out


def chunk(ctx, ds):
    m = max([len(d) for d in ds] + [1])
    return ctx.pick([1, 2, 3, m, max(1, m - 1), m + 1, 2 * m, 10**6, ctx.int(1, m + 2)])


def chunks_ok(ctx, chunks, data, size, /, **info):
    """chunks: what the owner of the data yields."""
    joined = {}
    for c in chunks:
        ctx.check(len(c) <= size, "a chunk is larger than allowed", got=len(c), limit=size, **info)
        ctx.check(not set(c) & set(joined), "an entry is in two chunks", **info)
        joined.update(c)
    ctx.check(joined == data, "the chunks do not add up to the data", got=joined, want=data, **info)


def w_local(ctx):
    """One process."""
    ds = dicts(ctx, 1)
    k = chunk(ctx, ds)
    start = {("old", i): i for i in range(ctx.int(0, 3))}
    ctx.case(repr(ds), k, len(start), sample=dict(entries=len(ds[0]), chunk=k))
    mine, total = dict(ds[0]), dict(start)
    if ctx.chance(0.3):
        mpi_comm.allgather_dict(mine, total)
    else:
        mpi_comm.allgather_dict(mine, total, k)
    ctx.check(total == {**start, **ds[0]}, "gathered dictionary (one process)", got=total, want={**start, **ds[0]}, chunk=k)
    ctx.check(mine == ds[0], "the data of the process were modified")
    chunks_ok(ctx, [dict(c) for c in mpi_comm.dict_chunks_from_one_MPI_rank(mine, k, 0)], ds[0], k)
    ctx.event("local_exchanges")


def w_exchange(ctx):
    """Real MPI runs: dictionaries of all sizes, chunk sizes and roots."""
    ranks = ctx.pick([2, 3, 4, 5, 6, 8])
    tasks, wants = [], []
    for _ in range(25):
        ds = dicts(ctx, ranks)
        k = chunk(ctx, ds)
        if ctx.chance(0.6):
            start = {("old", i): i for i in range(ctx.int(0, 3))}
            tasks.append(("allgather", dict(dicts=ds, chunk=ctx.pick([k, k, None]), total=start)))
            want = dict(start)
            for d in ds:
                want.update(d)
            wants.append(want)
        else:
            root = ctx.int(0, ranks - 1)
            tasks.append(("dict_chunks", dict(data=ds, chunk=k, root=root)))
            wants.append((ds[root], k, root))
    ctx.case(ranks, repr(tasks), sample=dict(ranks=ranks, tasks=len(tasks)))
    for t in tasks:  # every process yields None for the chunks of another process
        assert t[0] in ("allgather", "dict_chunks")
    out = mpi.run(ctx, tasks, ranks, delay=ctx.pick([None, (0.3, 0.002), (0.1, 0.01)]))
    for (name, kw), want, res in zip(tasks, wants, out):
        if name == "allgather":
            for r in range(ranks):
                total, kept = res[r]
                ctx.check(total == want, "an entry was lost, changed or invented in the exchange", rank=r, ranks=ranks, chunk=kw["chunk"], sizes=[len(d) for d in kw["dicts"]],
                          missing=[x for x in want if x not in total][:3], wrong=[x for x in total if x not in want or total[x] != want[x]][:3])
                ctx.check(kept, "the data of a process were modified", rank=r)
                ctx.event("exchanged_dictionaries")
        else:
            data, k, root = want
            n = len(res[root])
            chunks_ok(ctx, res[root], data, k, root=root, ranks=ranks)
            for r in range(ranks):
                ctx.check(len(res[r]) == n, "the processes have different numbers of chunks", got=[len(x) for x in res])
                if r != root:
                    ctx.check(all(c is None for c in res[r]), "a process that does not own the data yields something", rank=r, root=root)
                ctx.event("chunk_sequences")


def w_history(ctx):
    """Histories of operations on one distributed store: every product state is stored by exactly one process."""
    ranks = ctx.pick([1, 2, 3, 4, 5, 6, 8])
    tasks, wants = [], []
    while len(tasks) < 8:
        n, op, pool, restr, reach, rows = c09.make(ctx)
        if any(np.conj(v) != op.get(fock_dagger(p)) for p, v in op.items()):
            herm = False
        else:
            herm = True
        if len(reach) > 120:
            continue
        steps, starts = [], []
        for i in range(ctx.int(2, 6)):
            if i == 0:
                start = list(pool)
            else:
                start = list(dict.fromkeys([ctx.pick(sorted(reach))] + ([gen.mask(ctx, n)] if ctx.chance(0.5) else [])))
            try:
                r, _ = fock.closure(op, start, fock.restr_masks(restr), 200)
            except RuntimeError:
                continue
            b = [fock.to_bytes(m, n) for m in start]
            kind = ctx.pick(["expand", "hamiltonian", "green"] if herm else ["expand", "hamiltonian"])
            if kind == "expand":
                steps.append(("expand", b))
            elif kind == "hamiltonian":
                steps.append(("hamiltonian", b, ctx.chance(0.5)))
            else:
                steps.append(("green", {x: ctx.coef() for x in b}, 0.5, np.array([0.1, 1.0])))
            starts.append(r)
        if not steps:
            continue
        tasks.append(("history", dict(n=n, op=op, steps=steps, restrictions=restr)))
        wants.append((n, op, restr, steps, starts))
    ctx.case(ranks, repr(tasks), sample=dict(ranks=ranks, histories=[[s[0] for s in t[1]["steps"]] for t in tasks]))
    out = mpi.run(ctx, tasks, ranks, delay=ctx.pick([None, (0.1, 0.002), (0.02, 0.01)]))
    for (n, op, restr, steps, starts), res in zip(wants, out):
        before = [{} for _ in range(ranks)]
        for i, (s, reach) in enumerate(zip(steps, starts)):
            stores = [res[r][i][1] for r in range(ranks)]
            c09.judge_store(ctx, n, op, restr, [fock.to_bytes(m, n) for m in reach], stores, before, "store after step %d" % i, ranks=ranks, history=[x[0] for x in steps[:i + 1]])
            new = [set(a) - set(b) for a, b in zip(stores, before)]
            ctx.event("states_distributed", sum(len(x) for x in new))
            if sum(1 for x in new if x) > 1:
                ctx.event("distributed_steps")
            before = stores
            ctx.event("history_steps")


def fock_dagger(p):
    return tuple((i, "a" if a == "c" else "c") for i, a in reversed(p))


WORKLOADS = [W("history", w_history, 14, 140, first=True), W("exchange", w_exchange, 14, 140, first=True), W("exhaustive", w_exhaustive, 40, 160), W("tasks", w_tasks, 600, 6000), W("local", w_local, 1500, 15000)]
