"""C27: calculations are repeatable and have no side effects on their inputs."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from collections import OrderedDict

import numpy as np

from vm import fock, gen, mpi, sim, systems
from vm.core import Inconclusive, W, die_with_parent
from vm.pure_child import canonical, same
from checks import c07, c13, c17, c18, c22

MATRIX_MODES = ["sparse_MPI", "sparse_serial", "dense_MPI", "dense_serial"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ---- catalogue of calls

class Call:
    """A function with generators of its arguments; the generators share an environment, so that every mixture is valid."""

    def __init__(self, f, *gens, inout=(), post=None, tol=(1e-9, 1e-11), fixed=(), judge=None, files=None):
        self.f, self.gens, self.inout, self.post, self.tol, self.fixed, self.judge = f, gens, inout, post, tol, set(fixed), judge
        self.files = files  # generator of {name: content}

    def tasks(self, ctx, k):
        val = lambda g: g() if callable(g) else g
        base = [val(g) for g in self.gens]
        out = [base]
        files = [self.files() if self.files else {}]
        free = [i for i, g in enumerate(self.gens) if callable(g) and i not in self.inout and i not in self.fixed]
        for _ in range(k if free else 0):
            b = list(out[-1])
            out.append(b)
            files.append(files[-1])
            if self.files and ctx.chance(0.4):
                files[-1] = self.files()
                continue
            for i in ctx.rng.sample(free, 1 if ctx.chance(0.7) else ctx.int(1, len(free))):
                b[i] = val(self.gens[i])
        return [dict(f=self.f, args=pickle.loads(pickle.dumps(a)), inout=self.inout, post=self.post, tol=self.tol, judge=self.judge, files=x) for a, x in zip(out, files)]


def catalogue(ctx):
    """One call of every public function (random arguments)."""
    F = ctx.rng.uniform
    P = ctx.pick
    calls = []
    add = lambda *a, **k: calls.append(Call(*a, **k))
    # a system of n spin-orbitals
    n = ctx.int(4, 9)
    nel = ctx.int(1, n - 1)
    ham = lambda: gen.hermitian(ctx, n, ctx.int(2, 8), ctx.int(0, 5), kind=P([None, "float", "complex"]))
    st = lambda: fock.psi_to_bytes(gen.normalised(gen.psi(ctx, n, ctx.int(1, 5), nel)), n)
    op = lambda: gen.op_conserving(ctx, n, ctx.int(1, 6), ctx.int(0, 4))
    restr = lambda: P([None, gen.restrictions(ctx, n)])
    idx = lambda: ctx.int(0, n - 1)
    cut = lambda: P([1e-12, 0, 1e-7])
    add("finite.applyOp", n, op, st, cut, restr, {}, inout=(5,), post="op_result")
    add("finite.applyOp", n, op, st)
    add("finite.a", n, idx, st)
    add("finite.c", n, idx, st)
    add("finite.add", st, st, lambda: ctx.coef())
    add("finite.addToFirst", lambda: {}, st, lambda: ctx.coef(), inout=(0,), post="first")
    add("finite.inner", st, st)
    add("finite.norm2", st)
    add("finite.daggerOp", op)
    add("finite.addOps", lambda: [op() for _ in range(ctx.int(0, 3))])
    add("finite.addOps", lambda: [op()])
    add("finite.add", st, {}, lambda: P([0, 1, ctx.coef()]))
    add("finite.add", {}, st, 1)
    add("finite.add", st, st, lambda: P([0, 1, -1]))
    add("finite.applyOp", n, {((0, "c"), (0, "a")): 1.0, ((0, "a"), (0, "c")): 1.0}, st)
    add("finite.applyOp", n, op, {})
    add("finite.daggerOp", {})
    masks = [m for m in fock.all_masks(n, nel)]
    ctx.rng.shuffle(masks)
    basis = lambda: tuple(fock.to_bytes(m, n) for m in ctx.rng.sample(masks, ctx.int(1, min(len(masks), 25))))
    add("finite.get_hamiltonian_matrix", n, ham, basis, lambda: P(MATRIX_MODES))
    add("finite.expand_basis", n, lambda: {}, ham, basis, restr, lambda: P(["serial", "H_build"]), inout=(1,), post="store")
    add("finite.expand_basis_and_hamiltonian", n, lambda: {}, ham, basis, restr, lambda: P(["serial", "H_build"]), inout=(1,), post="matrix_store")
    full = tuple(fock.to_bytes(m, n) for m in masks)
    if len(full) >= 6:
        add("finite.eigensystem", n, ham, full, lambda: ctx.int(1, min(6, len(full) - 3)), lambda: P(["Lanczos", "full"]), 1e-9, lambda: P([0, 1e-7]), post="eigen", tol=(1e-6, 2e-3))
    m = ctx.int(2, 12)

    def herm():
        a = ctx.np.normal(size=(m, m)) + 1j * ctx.np.normal(size=(m, m))
        return a + a.conj().T

    def sparse():
        import scipy.sparse

        return scipy.sparse.csr_matrix(herm())

    vec = lambda: (lambda v: v / np.linalg.norm(v))(ctx.np.normal(size=m) + 1j * ctx.np.normal(size=m))
    add("finite.get_tridiagonal_krylov_vectors", sparse, vec, lambda: ctx.int(2, 12), False, lambda: P(["sparse", "dense"]), post="krylov", tol=(1e-7, 1e-9))
    # atomic physics
    num = lambda a=-5, b=9: round(F(a, b), 3)
    sc5, sc3, g4 = (lambda: [num(), 0, num(), 0, num()]), (lambda: [num(), 0, num()]), (lambda: [0, num(), 0, num()])
    l = lambda: ctx.int(0, 3)
    add("finite.get2p3dSlaterCondonUop", sc5, sc3, sc3, g4)
    add("finite.getSOCop", num, lambda: ctx.int(1, 3))
    add("finite.gethHfieldop", num, num, num, lambda: ctx.int(1, 3))
    add("finite.getUop", lambda: ctx.int(1, 2), lambda: ctx.int(1, 2), lambda: ctx.int(1, 2), lambda: ctx.int(1, 2), sc5)
    add("finite.getNoSpinUop", lambda: ctx.int(0, 2), lambda: ctx.int(0, 2), lambda: ctx.int(0, 2), lambda: ctx.int(0, 2), sc5)
    add("finite.getU", 2, lambda: ctx.int(-2, 2), 2, lambda: ctx.int(-2, 2), 2, lambda: ctx.int(-2, 2), 2, lambda: ctx.int(-2, 2), sc5)
    add("finite.gauntC", lambda: ctx.int(0, 4), 2, lambda: ctx.int(-2, 2), l, 0)
    add("finite.dc_MLFT", lambda: ctx.int(1, 9), lambda: round(F(-3, 3), 2), sc5, lambda: P([6, 5, None]), sc3, g4, fixed=(3,))
    add("finite.get_spherical_2_cubic_matrix", lambda: P([True, False]), lambda: P([1, 2]))
    add("finite.get_job_tasks", lambda: ctx.int(0, 3), 4, lambda: tuple(range(ctx.int(0, 20))))
    # layouts
    nb = lambda: OrderedDict([(1, ctx.int(0, 2)), (2, ctx.int(0, 4))])
    add("finite.c2i", nb, lambda: P([(2, 1, -2), (1, 0, 1), (2, 0, 0)]))
    add("finite.i2c", nb, lambda: ctx.int(0, 15))
    od = lambda a, b: OrderedDict([(1, a), (2, b)])
    add("finite.get_basis", lambda: od(0, ctx.int(2, 3)), lambda: od(0, ctx.int(0, 2)), lambda: od(0, ctx.int(0, 2)), lambda: od(0, ctx.int(0, 1)), lambda: od(0, ctx.int(0, 2)), lambda: od(6, P([1, 9])), post="set")
    # Hamiltonians of the programs (always the same file names)
    js = lambda: dict(cf=json.dumps(c13.cf_parameters(ctx)).encode())
    hp = [lambda: c13.params(ctx)[0], lambda: c13.params(ctx)[1], lambda: c13.params(ctx)[2], lambda: c13.params(ctx)[3]]
    both = [lambda: od(0, P([10, 20])), od(0, 10)]
    for basis in ([], [lambda: P(["spherical", "cubic"])]):
        add("get_spectra_using_CF.get_hamiltonian_operator_using_CF", *both, *hp, "cf", *basis, files=js)
        add("get_spectra_using_CF.get_CF_hamiltonian", *both, "cf", *basis, files=js)
    add("get_spectra_using_CF.read_h0_CF_file", "cf", files=js)
    stored = lambda: dict(h0=pickle.dumps(c22.stored_h0(ctx, 3, 2)))
    add("get_spectra.get_hamiltonian_operator", lambda: od(0, ctx.int(3, 5)), lambda: od(0, ctx.int(0, 3)), *hp, "h0", files=stored)
    add("get_spectra.read_pickled_file", "h0", files=stored)
    # the d shell
    lay = OrderedDict([(2, ctx.int(0, 2))]) if ctx.chance(0.4) else OrderedDict([(1, 0), (2, ctx.int(0, 2))])
    nd_orb = gen.n_orb(lay)
    dst = lambda: fock.psi_to_bytes(gen.normalised(gen.psi(ctx, nd_orb, ctx.int(1, 4), nd_orb // 2)), nd_orb)
    for f in ("getLz3d", "getSz3d", "getSsqr3d", "getLsqr3d", "getTraceDensityMatrix", "getDensityMatrix", "getDensityMatrixCubic", "getEgT2gOccupation", "applySz3d", "applyLz3d", "applySplus3d", "applyLplus3d", "applySminus3d", "applyLminus3d"):
        add("finite." + f, lay, dst)
    add("finite.printThermalExpValues", lay, lambda: np.sort(ctx.np.uniform(0, 0.1, 3)), lambda: [dst() for _ in range(3)])
    # representations
    occ = lambda: tuple(sorted(ctx.rng.sample(range(n), ctx.int(0, n))))
    add("product_state_representation.tuple2bytes", occ, n)
    add("product_state_representation.tuple2bitarray", occ, n)
    add("product_state_representation.bytes2tuple", lambda: fock.to_bytes(fock.mask_of(occ()), n), n)
    add("product_state_representation.bytes2str", lambda: fock.to_bytes(fock.mask_of(occ()), n), n)
    add("product_state_representation.bytes2bitarray", lambda: fock.to_bytes(fock.mask_of(occ()), n), n)
    for mod in ("create", "remove"):
        add(mod + ".ubytes", n, idx, lambda: fock.to_bytes(fock.mask_of(occ()), n))
        add(mod + ".uint", n, idx, lambda: fock.mask_of(occ()))
        add(mod + ".utuple", idx, occ)
        add(mod + ".ustr", idx, lambda: "".join(P("01") for _ in range(n)))
    # averages and transition operators
    k = ctx.int(1, 4)
    add("average.thermal_average", lambda: np.sort(ctx.np.uniform(-0.1, 0.1, k)), lambda: ctx.np.normal(size=(k, 3)), lambda: F(10, 3000))
    pol = lambda: [list(ctx.np.normal(size=3).round(2)) for _ in range(ctx.int(1, 3))]
    nb2 = lambda: OrderedDict([(1, ctx.int(0, 1)), (2, ctx.int(0, 2))])
    add("spectra.getDipoleOperators", nb2, lambda: (lambda p: p + p[:1])(pol()))
    add("spectra.getDaggeredDipoleOperators", nb2, pol)
    add("spectra.getPhotoEmissionOperators", nb2, lambda: ctx.int(1, 2))
    add("spectra.getInversePhotoEmissionOperators", nb2, lambda: ctx.int(1, 2))
    r = np.linspace(0.01, 5, 30)
    R = lambda: r**2 * np.exp(-F(0.8, 2) * r)
    add("spectra.getNIXSOperators", nb2, lambda: [list(ctx.np.normal(size=3) * 3) for _ in range(2)], 2, 2, R, R, r)
    return calls


def solved(ctx):
    """Calls of the spectra functions; the tolerance is what the method itself resolves (None: not comparable)."""
    s = systems.random_core_system(ctx)
    n = s.n
    es, psis = s.states(ctx, ctx.pick([1, 2]))
    w, delta = c17.params(ctx, s)
    win, wl, d1, d2 = c18.params(ctx)
    win = win[:2]
    out = []
    hams = [(s.h, s.fop)]
    h2 = {p: (v * 1.3 if len(p) == 2 and p[0][0] == p[1][0] else v) for p, v in s.h.items()}
    hams.append((h2, fock.Op(h2)))
    for h, fop in hams:
        s.fop = fop
        for restr in ([s.restr, None] if s.restr is not None else [None]):
            s.rm = fock.restr_masks(restr)
            cache = []
            ops = c17.transitions(ctx, s, 2)
            bp = [fock.psi_to_bytes(p, n) for p in psis]
            g, t = c17.reference(ctx, s, ops, psis, es, w, delta, 1e-12, cache)
            a = [n, h, ops, bp, es, w, delta, restr, 150, 1e-12, ctx.pick(["H_build", "eigen_states"])]
            out.append(dict(f="spectra.getSpectra", args=a, tolerance=2 * t[..., None] + 1e-9))
            g, t = c18.reference(s, s.t_in, s.t_out, psis, es, win, wl, d1, d2, 1e-12, 1e-5, cache)
            a = [n, h, s.t_in, s.t_out, bp, es, win, wl, d1, d2, restr, 150, 1e-12, None, ctx.pick(c18.PARS)]
            out.append(dict(f="spectra.getRIXSmap", args=a if ctx.chance(0.5) else a[:13], tolerance=2 * t[..., None] + 1e-9))
            g, t = c17.reference(ctx, s, [{((s.val[0], "c"), (s.val[0], "a")): 1.0}], psis[:1], es[:1], w, delta, 1e-12, cache)
            f = fock.apply_op({((s.val[0], "c"), (s.val[0], "a")): 1.0}, psis[0], s.rm)
            if f:
                nrm = fock.norm2(f) ** 0.5
                a = [n, es[0], fock.psi_to_bytes({k: v / nrm for k, v in f.items()}, n), h, w, delta, 150, 1e-12, restr, {}, ctx.pick(["sparse", "dense"]), ctx.pick(["serial", "H_build"])]
                out.append(dict(f="spectra.getGreen", args=a, inout=(9,), tolerance=(2 * t[0, 0] + 1e-9) / nrm**2))
                # (without stores: the defaults)
                out.append(dict(f="spectra.getGreen", args=a[:9] + ctx.pick([[], [None]]), tolerance=(2 * t[0, 0] + 1e-9) / nrm**2))
    return out


# ---- workloads

def child(ctx, tasks, order, seed):
    base = os.environ.get("VM_SCRATCH") or tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix="pure_", dir=base)
    try:
        with open(os.path.join(d, "spec.pickle"), "wb") as f:
            pickle.dump((tasks, order), f)
        env = dict(mpi.environment(), PYTHONHASHSEED=str(seed))
        with open(os.path.join(d, "err"), "w") as err:
            try:
                p = subprocess.run([sys.executable, "-B", os.path.join(HERE, "vm", "pure_child.py"), d], env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=err, stderr=err, timeout=280, preexec_fn=die_with_parent)
            except subprocess.TimeoutExpired:
                raise Inconclusive("a process did not finish in time")
        path = os.path.join(d, "out.pickle")
        if not os.path.exists(path):
            raise Inconclusive("a process ended without a result: " + open(os.path.join(d, "err")).read()[-800:])
        with open(path, "rb") as f:
            return pickle.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge_runs(ctx, tasks, runs, /, **info):
    missing = 0
    for i, t in enumerate(tasks):
        res = [r[i] for r in runs]
        if any(x[0] == "missing" for x in res if isinstance(x[0], str)):
            missing += 1
            continue
        errs = [x for x in res if x[0] == "error"]
        short = [repr(a)[:160] for a in t["args"]]
        ctx.check(len(errs) in (0, len(res)), "a call fails or not, depending on what was calculated before or on the hash seed", function=t["f"], args=short, error=errs[:1], **info)
        if errs:
            # (rejected inputs: nothing to compare)
            ctx.event("rejected_calls")
            continue
        for x in res:
            ctx.check(not x[1], "side effects of a call", function=t["f"], args=short, trouble=x[1][:2], **info)
        for x in res[1:]:
            if "tolerance" in t:
                a, b, tol = res[0][0][2], x[0][2], np.broadcast_to(t["tolerance"], res[0][0][2].shape)
                ctx.check(a.shape == b.shape, "result depends on what was calculated before or on the hash seed (shape)", function=t["f"], got=b.shape, want=a.shape, **info)
                ok = np.isfinite(tol)
                bad = ok & ~(np.abs(a - b) <= np.where(ok, tol, 0))
                ctx.check(not np.any(bad), "result depends on what was calculated before or on the hash seed", function=t["f"], args=short, n_bad=int(bad.sum()), max_err=float(np.max(np.abs(a - b)[bad], initial=0)), **info)
            else:
                ctx.check(same(res[0][0], x[0], *t["tol"]), "result depends on what was calculated before or on the hash seed", function=t["f"], args=short, first=repr(res[0][0])[:500], other=repr(x[0])[:500], **info)
            ctx.event("results_compared")
        ctx.event("calls_observed", len(res))
        ctx.event("called_" + t["f"])
    if missing == len(tasks):
        raise Inconclusive("none of the functions exists")


def w_calls(ctx):
    tasks = []
    for c in catalogue(ctx):
        tasks += c.tasks(ctx, 2)
    orders = [list(range(len(tasks))), list(range(len(tasks)))[::-1], list(range(len(tasks)))]
    ctx.rng.shuffle(orders[2])
    seeds = [0, ctx.int(1, 4294967295), ctx.int(1, 4294967295)]
    ctx.case(repr([(t["f"], repr(t["args"])[:200]) for t in tasks]), sample=dict(calls=len(tasks), functions=len({t["f"] for t in tasks})))
    runs = [child(ctx, tasks, o, s) for o, s in zip(orders, seeds)]
    judge_runs(ctx, tasks, runs, seeds=seeds)
    ctx.event("processes", len(runs))
    ctx.event("hash_seeds", len(runs))


def w_solved(ctx):
    tasks = []
    for _ in range(3):
        tasks += solved(ctx)
    for t in tasks:
        # within one process the arithmetic is the same
        t["tol"] = (1e-6, 1e-9)
        if not np.all(np.isfinite(t["tolerance"])):
            t["tol"] = (1.0, 1e9)
    orders = [list(range(len(tasks))), list(range(len(tasks)))[::-1]]
    seeds = [ctx.int(0, 1), ctx.int(1, 4294967295)]
    ctx.case(repr([repr(t["args"])[:300] for t in tasks]), sample=dict(calls=len(tasks)))
    runs = [child(ctx, tasks, o, s) for o, s in zip(orders, seeds)]
    judge_runs(ctx, tasks, runs, seeds=seeds)
    ctx.event("processes", len(runs))
    ctx.event("spectra_calls", len(tasks))


def w_simulate(ctx):
    """The same simulation before and after another one in the same process, and the inputs."""
    a = sim.make(ctx, nds=(1, 9, 8), nbs=(0, 0, 1), kmax=2)
    b = sim.make(ctx, nds=(1, 9, 8), nbs=(0, 0, 1), kmax=2)
    p, q = sim.parameters(ctx), sim.parameters(ctx)
    if ctx.chance(0.5):
        q = dict(p, eps=q["eps"], qs=q["qs"])
    for x in (p, q):
        x["w"], x["wLoss"], x["wIn"] = x["w"][:7], x["wLoss"][:7], x["wIn"][:2]
    ctx.case(sorted(a.hop.items(), key=repr), repr(p), sample=dict(nd=a.nd, baths=a.nb))
    info = dict(nd=a.nd, baths=a.nb)
    ref = sim.reference(a, p)
    keep = canonical([a.hop, a.es, a.psis, p, a.restr, dict(a.nBaths)])
    first, text1 = sim.run(a, p)
    ctx.check(same(keep, canonical([a.hop, a.es, a.psis, p, a.restr, dict(a.nBaths)]), 0, 0), "a simulation modified its arguments", **info)
    sim.run(b, q)
    sim.run(a, q)
    second, text2 = sim.run(a, p)
    ctx.equal(sorted(first), sorted(second), "other datasets in a second run", **info)
    for k in first:
        g, t = ref.get(k, (None, None))
        if t is None:
            if k.endswith("thermal") and np.all(np.isfinite(ref[k[:-7]][1])):
                t = np.max(ref[k[:-7]][1])
            else:
                continue
        lim = np.broadcast_to(np.where(np.isfinite(t), 2 * t + 1e-9, np.inf), np.shape(first[k]))
        bad = np.abs(first[k] - second[k]) > lim
        ctx.check(not np.any(bad), "a second run of the same simulation gives other spectra", dataset=k, n_bad=int(bad.sum()), **info)
        ctx.event("datasets_compared")
    ctx.event("simulations")


def w_program(ctx):
    """Both programs: runs in one process (after each other, in another order) agree with a run in a fresh process."""
    runs = []
    cf = ctx.index % 2 == 0
    while len(runs) < 2:
        g, o, (nb, nv, nd, dv, dc) = c22.options(ctx, cf)
        pair = lambda k: OrderedDict(zip((1, 2), o[k]))
        masks, n = c07.reference(OrderedDict([(1, 0), (2, nb)]), OrderedDict([(1, 0), (2, nv)]), pair("dnValBaths"), pair("dnConBaths"), pair("dnTols"), pair("n0imps"))
        if not 4 <= len(masks) <= 50:
            continue
        g["nPsiMax"] = min(len(runs) + 1, len(masks) - 2)
        g["hField"] = tuple(round(ctx.rng.uniform(0.05, 0.2), 3) for _ in range(3))
        g["T"] = 300
        runs.append((g, nb, nv))
    module = "impurityModel.ed.get_spectra_using_CF" if cf else "impurityModel.ed.get_spectra"
    ctx.case(module, repr([sorted(g.items()) for g, _, _ in runs]), sample=dict(program=module, options=runs[0][0]))
    with tempfile.TemporaryDirectory() as d:
        argvs = []
        for i, (g, nb, nv) in enumerate(runs):
            f0 = os.path.join(d, "in%d" % i)
            if cf:
                with open(f0, "w") as fh:
                    json.dump({k: v + round(ctx.rng.uniform(-0.3, 0.3), 3) for k, v in c13.NIO.items() if ctx.chance(0.6)}, fh)
            else:
                with open(f0, "wb") as fh:
                    pickle.dump(c22.stored_h0(ctx, nb, nv), fh)
            argvs.append([f0, os.path.join(c22.REPO, "radialOrbitals", "Ni3d.dat")] + c22.command_line(ctx, g))
        out = []
        for k, i in enumerate((0, 1, 0) if ctx.thorough else (0, 1)):
            e = os.path.join(d, "run%d" % k)
            os.mkdir(e)
            out.append(c22.run_program(module, argvs[i], e)[0])
        e = os.path.join(d, "fresh")
        os.mkdir(e)
        env = dict(mpi.environment(), PYTHONHASHSEED=str(ctx.int(0, 4294967295)), PYTHONPATH=os.pathsep.join([c22.REPO, os.environ.get("PYTHONPATH", "")]))
        try:
            p = subprocess.run([sys.executable, "-B", os.path.join(HERE, "vm", "boot.py"), "-m", module] + argvs[1], env=env, cwd=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=280, preexec_fn=die_with_parent)
        except subprocess.TimeoutExpired:
            raise Inconclusive("a run did not finish in time")
        ctx.check(p.returncode == 0, "the program fails in a fresh process but not in this one", output=p.stdout[-500:])
        fresh = sim.read(e)[0]
    info = dict(program=module, options=[g for g, _, _ in runs])
    pairs = [(fresh, out[1], "in a fresh process with another hash seed")]
    if len(out) > 2:
        pairs.append((out[2], out[0], "after another run in the same process"))
    for x, y, what in pairs:
        ctx.equal(sorted(x), sorted(y), "other datasets " + what, **info)
        e = y["E"]
        k = len(e)
        apart = k < 2 or np.min(np.diff(e)) > 1e-3
        for name in sorted(y):
            if name in ("E", "w", "wIn", "wLoss", "r", "RiNIXS", "RjNIXS", "qsNIXS"):
                ctx.close(x[name], y[name], "other values %s: %s" % (what, name), rtol=1e-7, atol=1e-8, **info)
            elif apart:
                # (small spaces: converged up to the cut-offs and the tolerance of the linear solver)
                ctx.close(x[name], y[name], "other values %s: %s" % (what, name), rtol=5e-3, atol=1e-6, **info)
            else:
                continue
            ctx.event("program_datasets")
    ctx.event("program_runs")


WORKLOADS = [W("program", w_program, 2, 40, cpu=300, first=True), W("calls", w_calls, 16, 600, cpu=200), W("solved", w_solved, 16, 700, cpu=200), W("simulate", w_simulate, 16, 300, cpu=200)]
