"""C08: every Hamiltonian matrix construction equals the operator on the basis."""
import itertools

import numpy as np
import scipy.sparse

from impurityModel.ed import finite
from vm import fock, gen, mpi
from vm.core import W


def dense(ctx, h, what):
    h = np.asarray(h.todense() if hasattr(h, "todense") else h)
    ctx.check(h.ndim == 2 and h.shape[0] == h.shape[1], "%s: the matrix is square" % what, shape=h.shape)
    return h


def make(ctx, closed=None, nmax=12):
    """(n, op, basis masks, hermitian, restrictions)."""
    n = ctx.size(2, 100, nmax, 0.85)
    orbs = list(range(n)) if n <= nmax else ctx.rng.sample(range(n), min(n, 9))
    kind = ctx.pick(["float", "complex", None])
    herm = ctx.chance(0.6)
    restr = None
    if herm:
        op = gen.hermitian(ctx, n, ctx.int(1, 10), ctx.int(0, 8), orbs, kind, diag=ctx.chance(0.7))
    else:
        op = gen.op_conserving(ctx, n, ctx.int(1, 8), ctx.int(0, 6), orbs, kind) if ctx.chance(0.5) else gen.op_general(ctx, n, ctx.int(1, 10), 4, orbs, kind)
    nel = ctx.int(0, n)
    closed = ctx.chance(0.5) if closed is None else closed
    if closed:
        pool = [gen.mask(ctx, n, nel) for _ in range(ctx.int(1, 3))]
        if ctx.chance(0.3):
            restr = gen.restrictions(ctx, n, pool)
        try:
            basis = sorted(fock.closure(op, pool, fock.restr_masks(restr), 150)[0])
        except RuntimeError:
            basis = sorted(set(pool))
            closed, restr = False, None
    else:
        pool = [gen.mask(ctx, n, nel if ctx.chance(0.8) else None) for _ in range(ctx.int(1, 25))]
        basis = sorted(set(pool) | set(m for m in list(fock.apply_op(op, {p: 1 for p in pool[:4]})) if ctx.chance(0.7)))
        basis = basis[:60]
    ctx.rng.shuffle(basis)
    return n, op, basis, herm, closed, restr


def compare(ctx, h, want, what, **info):
    """Elements below 1e-6 may be dropped (weight cutoff of operator application), all others are exact."""
    ctx.check(h.shape == want.shape, what + " (shape)", got_shape=h.shape, want_shape=want.shape, **info)
    dropped = (h == 0) & (np.abs(want) < 1.01e-6)
    ctx.close(h, np.where(dropped, 0, want), what, rtol=1e-12, atol=1e-13, **info)


def exact_matrix(op, basis, restr=None, cut=1e-12):
    """<i|op|j> with (as documented for operator application) result weights below 1e-12 dropped."""
    return fock.matrix(op, basis, fock.restr_masks(restr))


def w_operator(ctx):
    n, op, basis, herm, closed, _ = make(ctx)
    want = exact_matrix(op, basis)
    bb = tuple(fock.to_bytes(m, n) for m in basis)
    ctx.case(n, sorted(op.items(), key=repr), basis, sample=dict(n=n, processes=len(op), size=len(basis), hermitian=herm))
    keep = dict(op)
    hs = {}
    for mode in ("dense_serial", "dense_MPI", "sparse_serial", "sparse_MPI"):
        h = dense(ctx, finite.get_hamiltonian_matrix(n, op, bb, mode), mode)
        compare(ctx, h, want, "Hamiltonian matrix (%s) differs from <i|H|j>" % mode, n=n, op=op, basis=basis)
        hs[mode] = h
        if herm:
            ctx.close(h, h.conj().T, "Hamiltonian matrix (%s) of a Hermitian operator is not Hermitian" % mode, atol=1e-12)
            ctx.event("hermitian_matrices")
        ctx.event("matrices_compared")
        ctx.event("matrix_elements", h.size)
    h = dense(ctx, finite.get_hamiltonian_matrix(n, op, bb), "default")
    ctx.close(h, hs["dense_serial"], "constructions differ", rtol=1e-12, atol=1e-12)
    # another order of the basis only permutes rows and columns
    perm = list(range(len(bb)))
    ctx.rng.shuffle(perm)
    h2 = dense(ctx, finite.get_hamiltonian_matrix(n, op, tuple(bb[i] for i in perm), ctx.pick(list(hs))), "permuted")
    ctx.close(h2, hs["dense_serial"][np.ix_(perm, perm)], "matrix depends on the order of the basis", rtol=1e-12, atol=1e-12)
    ctx.check(op == keep, "the operator was modified")


def w_large(ctx):
    """Bases with hundreds of product states."""
    n, op, masks = gen.big(ctx, 130, 1300)
    herm = ctx.chance(0.7)
    if not herm:
        op = gen.op_conserving(ctx, n, 2 * n, n)
    basis = ctx.rng.sample(masks, ctx.pick([len(masks), ctx.size(1, len(masks), 300)]))
    want = exact_matrix(op, basis)
    bb = tuple(fock.to_bytes(m, n) for m in basis)
    ctx.case(n, sorted(op.items(), key=repr), len(basis), sample=dict(n=n, processes=len(op), size=len(basis), hermitian=herm))
    info = dict(n=n, size=len(basis), processes=len(op))
    for mode in ("dense_serial", "dense_MPI", "sparse_serial", "sparse_MPI"):
        h = dense(ctx, finite.get_hamiltonian_matrix(n, op, bb, mode), mode)
        compare(ctx, h, want, "Hamiltonian matrix (%s) differs from <i|H|j>" % mode, **info)
        ctx.event("matrices_compared")
    if herm and len(basis) == len(masks):
        rows = stored_rows(ctx, n, op, basis, None)
        for mode, local in (("dense", None), ("sparse", None), ("H_build", False), ("H_build", True)):
            h, index = finite.get_hamiltonian_matrix_from_h_dict(rows, bb, mode=mode) if local is None else finite.get_hamiltonian_matrix_from_h_dict(rows, bb, mode, local)
            ctx.close(dense(ctx, h, mode), want, "matrix from stored action (%s)" % mode, rtol=1e-10, atol=1e-12, **info)
            ctx.check(index == {b: i for i, b in enumerate(bb)}, "basis index")
            ctx.event("matrices_compared")
    ctx.event("large_bases")


def w_huge(ctx):
    """Bases of many thousand product states: every column of the sparse constructions."""
    n, k = ctx.pick([(16, 5), (17, 5), (17, 6), (18, 6)]) if ctx.index >= 4 else (19, 8)
    orbs = ctx.rng.sample(range(n), 6)
    op = gen.hermitian(ctx, n, ctx.int(2, 3), ctx.int(0, 1), orbs, diag=False)
    op[((0, "c"), (0, "a"))] = ctx.coef("float")
    basis = [fock.mask_of(x) for x in itertools.combinations(range(n), k)]
    ctx.rng.shuffle(basis)
    bb = tuple(fock.to_bytes(m, n) for m in basis)
    rows = stored_rows(ctx, n, op, basis, None)
    ix = {b: i for i, b in enumerate(bb)}
    what = ctx.pick(["sparse_serial", "sparse_MPI", "stored", "stored_H_build"]) if ctx.index >= 4 else ["sparse_MPI", "sparse_serial", "stored", "stored_H_build"][ctx.index % 4]
    ctx.case(n, k, sorted(op.items(), key=repr), what, sample=dict(n=n, electrons=k, processes=len(op), size=len(basis), construction=what))
    if what.startswith("stored"):
        h, index = finite.get_hamiltonian_matrix_from_h_dict(rows, bb, "H_build" if what == "stored_H_build" else "serial")
        ctx.check(index == ix, "basis index")
    else:
        h = finite.get_hamiltonian_matrix(n, op, bb, what)
    i, j, v = zip(*((ix[c], ix[b], x) for b, r in rows.items() for c, x in r.items()))
    want = scipy.sparse.csr_matrix((v, (i, j)), shape=(len(bb),) * 2)
    ctx.check(h.shape == want.shape, "shape of the matrix", got=h.shape, want=want.shape)
    d = abs(scipy.sparse.csr_matrix(h) - want).tocoo()
    worst = int(np.argmax(d.data)) if d.nnz else None
    ctx.check(not d.nnz or d.data[worst] < 1.01e-6, "Hamiltonian matrix (%s) differs from <i|H|j>" % what, size=len(bb), n=n, at=worst is not None and (int(d.row[worst]), int(d.col[worst])), difference=worst is not None and d.data[worst])
    ctx.event("huge_matrix_elements", want.nnz)


def stored_rows(ctx, n, op, basis, restr):
    rows = {}
    fop, rm = fock.Op(op), fock.restr_masks(restr)
    for m in basis:
        rows[fock.to_bytes(m, n)] = fock.psi_to_bytes(fop.row(m, rm), n)
    return rows


def w_stored(ctx):
    n, op, basis, herm, _, restr = make(ctx, closed=True)
    want = exact_matrix(op, basis, restr)
    bb = tuple(fock.to_bytes(m, n) for m in basis)
    rows = stored_rows(ctx, n, op, basis, restr)
    # only closed bases have their stored action inside the basis
    if any(k not in rows for r in rows.values() for k in r):
        from vm.core import Skip

        raise Skip()
    ctx.case(n, sorted(op.items(), key=repr), basis, repr(restr), sample=dict(n=n, processes=len(op), size=len(basis), hermitian=herm, restrictions=restr))
    extra = {}
    for _ in range(ctx.int(0, 3)):  # the store may know more product states than the basis
        m = gen.mask(ctx, n)
        if fock.to_bytes(m, n) not in rows:
            extra[fock.to_bytes(m, n)] = {fock.to_bytes(gen.mask(ctx, n), n): 1.5}
    store = {**rows, **extra}
    items = list(store.items())
    ctx.rng.shuffle(items)
    store = dict(items)
    keep = {k: dict(v) for k, v in store.items()}
    for mode in ("dense", "sparse"):
        h, index = finite.get_hamiltonian_matrix_from_h_dict(store, bb, mode=mode)
        ctx.close(dense(ctx, h, mode), want, "matrix from stored action (%s)" % mode, rtol=1e-10, atol=1e-12, n=n, op=op, basis=basis)
        ctx.check(index == {b: i for i, b in enumerate(bb)}, "basis index")
        ctx.event("matrices_compared")
    for local in (False, True):
        h, index = finite.get_hamiltonian_matrix_from_h_dict(store, bb, "H_build", local)
        ctx.close(dense(ctx, h, "H_build"), want, "matrix from stored action (H_build)", rtol=1e-10, atol=1e-12, n=n, op=op, basis=basis)
        ctx.check(index == {b: i for i, b in enumerate(bb)}, "basis index")
    # pieces of a distributed store add up, no column twice or lost
    k = ctx.int(2, 5)
    pieces = [dict() for _ in range(k)]
    for b, r in store.items():
        pieces[ctx.int(0, k - 1)][b] = r
    total = 0
    cols = np.zeros(len(bb), dtype=int)
    for piece in pieces:
        h, _ = finite.get_hamiltonian_matrix_from_h_dict(piece, bb, "H_build", True)
        h = dense(ctx, h, "piece")
        own = [b in piece for b in bb]
        ctx.check(not np.any(h[:, ~np.array(own)]), "a piece contains a column of another process")
        cols += np.array(own)
        total = total + h
    ctx.close(total, want, "distributed pieces do not add up to the full matrix", rtol=1e-10, atol=1e-12)
    ctx.check(np.all(cols == 1), "pieces")
    ctx.event("distributed_pieces", k)
    ctx.check(store == keep, "the stored action was modified")
    # expansion and matrix in one step
    h, index = finite.expand_basis_and_hamiltonian(n, {}, op, bb[:1], restr, "serial", False) if ctx.chance(0.5) else finite.expand_basis_and_hamiltonian(n, {}, op, bb[:1], restr, "H_build", ctx.chance(0.5))
    masks = [None] * len(index)
    for b, i in index.items():
        masks[i] = fock.from_bytes(b, n)
    ctx.check(None not in masks, "basis_index is a bijection onto 0..N-1", index=index)
    ctx.close(dense(ctx, h, "expand"), exact_matrix(op, masks, restr), "expanded matrix", rtol=1e-10, atol=1.01e-6, n=n, op=op)


def w_mpi(ctx):
    """Real MPI processes: all distributed constructions on every rank."""
    ranks = ctx.pick([2, 3, 3, 4, 5])
    tasks, wants = [], []
    for _ in range(5):
        n, op, basis, herm, _, _ = make(ctx, closed=False)
        want = exact_matrix(op, basis)
        bb = [fock.to_bytes(m, n) for m in basis]
        for mode in ("dense_MPI", "sparse_MPI", "sparse_serial"):
            tasks.append(("matrix", dict(n=n, op=op, basis=bb, mode=mode)))
            wants.append(("matrix", want, None))
    for _ in range(5):
        n, op, basis, herm, closed, restr = make(ctx, closed=True)
        rows = stored_rows(ctx, n, op, basis, restr)
        if any(k not in rows for r in rows.values() for k in r):
            continue
        bb = [fock.to_bytes(m, n) for m in basis]
        stores = [dict() for _ in range(ranks)]
        for b, r in rows.items():
            stores[ctx.int(0, ranks - 1) if ctx.chance(0.8) else 0][b] = r
        want = exact_matrix(op, basis, restr)
        for local in (False, True):
            tasks.append(("matrix_h_dict", dict(stores=stores, basis=bb, local=local)))
            wants.append(("local" if local else "full", want, {b: i for i, b in enumerate(bb)}))
        start = [bb[0]]
        for local in (False, True):
            part = [{k: v for k, v in s.items() if ctx.chance(0.5)} for s in stores]
            tasks.append(("expand_hamiltonian", dict(n=n, op=op, basis0=start, restrictions=restr, stores=part, mode="H_build", local=local)))
            wants.append(("expand_local" if local else "expand_full", (n, op, restr), None))
    ctx.case(ranks, repr([t[1] for t in tasks]), sample=dict(ranks=ranks, tasks=len(tasks)))
    out = mpi.run(ctx, tasks, ranks, delay=ctx.pick([None, (0.3, 0.002), (0.1, 0.01)]))
    for (name, kw), (kind, want, index), res in zip(tasks, wants, out):
        if kind == "matrix":
            for r, h in enumerate(res):
                ctx.close(h, want, "matrix on MPI rank %d of %d (%s)" % (r, ranks, kw["mode"]), rtol=1e-10, atol=1.01e-6)
                ctx.event("mpi_matrices_compared")
        elif kind in ("full", "local"):
            for r, (h, ix) in enumerate(res):
                ctx.check(ix == index, "basis index on MPI rank %d" % r)
                if kind == "full":
                    ctx.close(h, want, "full matrix from distributed store on MPI rank %d of %d" % (r, ranks), rtol=1e-10, atol=1e-12)
                ctx.event("mpi_matrices_compared")
            if kind == "local":
                ctx.close(sum(h for h, _ in res), want, "sum of local matrices of %d MPI ranks" % ranks, rtol=1e-10, atol=1e-12)
                own = sum((np.abs(h).sum(axis=0) > 0).astype(int) for h, _ in res)
                ctx.check(np.all(own <= 1), "a column is stored on two ranks")
        else:
            n, op, restr = want
            ix = res[0][1]
            masks = [None] * len(ix)
            for b, i in ix.items():
                masks[i] = fock.from_bytes(b, n)
            w = exact_matrix(op, masks, restr)
            for r, (h, ixr, store) in enumerate(res):
                ctx.check(ixr == ix, "basis order differs between MPI ranks")
                if kind == "expand_full":
                    ctx.close(h, w, "expanded matrix on MPI rank %d of %d" % (r, ranks), rtol=1e-10, atol=1.01e-6)
            if kind == "expand_local":
                ctx.close(sum(x[0] for x in res), w, "sum of local expanded matrices of %d MPI ranks" % ranks, rtol=1e-10, atol=1.01e-6)
            ctx.event("mpi_matrices_compared")


WORKLOADS = [W("operator", w_operator, 4000, 60000), W("stored", w_stored, 3000, 45000), W("large", w_large, 40, 400), W("huge", w_huge, 4, 32, first=True), W("mpi", w_mpi, 16, 120, first=True)]
