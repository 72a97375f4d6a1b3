"""In-process runs of spectra.simulate_spectra on small 2p-3d systems, and their reference values."""
import contextlib
import io
import os
import tempfile
from collections import OrderedDict

import numpy as np

from vm import atomic, fock, gen, spec
from vm.core import Skip


class System:
    pass


def make(ctx, nds=(1, 2, 8, 9, 9), nbs=(0, 0, 0, 1, 2), cubic=False, field=True, kmax=4, n_core=6):
    s = System()
    nd, nb = ctx.pick(nds), ctx.pick(nbs)
    if nd < 8:
        nb = min(nb, 1)
    s.nBaths = OrderedDict([(1, 0), (2, nb)])
    s.labels = gen.labels(s.nBaths)
    s.ix = {x: i for i, x in enumerate(s.labels)}
    s.n, s.nd, s.nb, s.n_core = len(s.labels), nd, nb, n_core
    F = lambda a, b: ctx.rng.uniform(a, b)
    sc = [(F(0, 6), 0, F(1, 8), 0, F(1, 6)), (0, 0, 0), (F(0, 6), 0, F(1, 6)), (0, F(0.5, 4), 0, F(0.5, 3))]
    udd = sc[0][0] - 14 / 441 * (sc[0][2] + sc[0][4])
    upd = sc[2][0] - sc[3][1] / 15 - 3 / 70 * sc[3][3]
    m2 = np.kron(np.eye(2), atomic.cubic_field(F(0.2, 1.5))) + atomic.soc_matrix(2, F(0.02, 0.2)) + np.eye(10) * (-udd * (nd - 0.5) - 6 * upd + F(-1, 1))
    s.h_field = [0, 0, 0] if cubic or not field else [ctx.pick([0, F(-0.2, 0.2)]) for _ in range(3)]
    m2 = m2 + atomic.zeeman_matrix(2, s.h_field)
    m1 = atomic.soc_matrix(1, F(1, 8)) + np.eye(6) * (-upd * nd + F(-2, 2))
    op = fock.add_ops(atomic.slater_condon(*sc), atomic.op_of_matrix(atomic.shell(2), m2), atomic.op_of_matrix(atomic.shell(1), m1))
    for b in range(nb):
        x = (2, b)
        op[((x, "c"), (x, "a"))] = F(-5, -2)
        for _ in range(2):
            y = ctx.pick(atomic.shell(2))
            v = ctx.coef("complex", lo=0.2, hi=1)
            op[((x, "c"), (y, "a"))] = v
            op[((y, "c"), (x, "a"))] = np.conj(v)
    s.hop = atomic.symmetrised(atomic.relabel(op, s.ix))
    s.op = fock.Op(s.hop)
    d = [s.ix[x] for x in atomic.shell(2)]
    val = [s.ix[(2, b)] for b in range(nb)]
    s.restr = {frozenset(d): (nd - 1, nd + ctx.int(0, 2) + 1), frozenset(val): (nb - ctx.int(1, 2), nb), frozenset(): (0, 0)}
    if not nb:
        s.restr.pop(frozenset(val), None)
    if ctx.chance(0.15):
        s.restr = None
    s.rm = fock.restr_masks(s.restr)
    core = fock.mask_of(range(n_core))  # p orbitals come first in this layout
    s.basis = []
    for m in fock.all_masks(10 + nb, nd + nb):
        full = core | (m << 6)
        if fock.allowed(full, s.rm):
            s.basis.append(full)
    if not s.basis:
        raise Skip()
    h = fock.matrix(s.op, s.basis, s.rm)
    s.w, s.v = np.linalg.eigh(h)
    k = min(len(s.basis), ctx.int(1, kmax))
    s.es = tuple(float(x) for x in s.w[:k])
    s.psis = []
    for i in range(k):
        p = {m: s.v[a, i] for a, m in enumerate(s.basis) if abs(s.v[a, i]) ** 2 > 1e-7}
        s.psis.append(gen.normalised(p))
    return s


def parameters(ctx, many=False):
    p = dict(T=ctx.pick([1e-3, 5.0, 300, 300.0, 2000.0, 1e5, ctx.rng.uniform(10, 5000)]))
    p["w"] = np.linspace(ctx.rng.uniform(-15, -8), ctx.rng.uniform(8, 15), ctx.int(5, 25))
    p["wLoss"] = np.linspace(ctx.rng.uniform(-2, 0), ctx.rng.uniform(3, 8), ctx.int(4, 18))
    p["wIn"] = np.linspace(ctx.rng.uniform(-10, 0), ctx.rng.uniform(1, 10), ctx.int(1, 4))
    if ctx.chance(0.25):  # meshes of equal length: a transposed map has the same shape
        n = ctx.int(2, 6)
        for k in ("w", "wLoss", "wIn") if ctx.chance(0.5) else ("wLoss", "wIn"):
            p[k] = np.linspace(p[k][0], p[k][-1] if len(p[k]) > 1 else p[k][0] + 3, n)
    p["delta"] = ctx.rng.uniform(0.15, 0.5)
    p["deltaNIXS"] = ctx.rng.uniform(0.05, 0.3)
    p["deltaRIXS"] = ctx.rng.uniform(0.05, 0.3)
    vec = lambda: [ctx.pick([0, 1, round(ctx.rng.uniform(-1, 1), 2)]) for _ in range(3)]

    circular = ctx.chance(0.25)

    def pol():
        v = vec()
        if circular and ctx.chance(0.6):
            v = ctx.pick([[1, 1j, 0], [1, -1j, 0], [a + 1j * b for a, b in zip(v, vec())]])
        return v if any(v) or ctx.chance(0.2) else [0, 0, 1]

    def transfer():
        v = vec()
        return v if any(v) else [0, 0, 1]

    p["eps"] = [pol() for _ in range(ctx.int(1, 3))]
    p["eps_in"] = [pol() for _ in range(ctx.int(1, 2))]
    p["eps_out"] = [pol() for _ in range(ctx.int(1, 3))]
    p["qs"] = [list(np.array(transfer()) * ctx.rng.uniform(0.5, 7)) for _ in range(ctx.int(1, 2))]
    if many:
        kind = ctx.pick(["eps", "eps_in", "eps_out", "qs", "w", "wLoss", "wIn"])
        if kind == "w":
            p["w"] = np.linspace(p["w"][0], p["w"][-1], ctx.int(1000, 4000))
        elif kind == "wLoss":
            p["wLoss"] = np.linspace(p["wLoss"][0], p["wLoss"][-1], ctx.int(600, 1500))
        elif kind == "wIn":
            p["wIn"] = np.linspace(p["wIn"][0], p["wIn"][-1] + (len(p["wIn"]) == 1), ctx.int(12, 30))
            p["eps_in"], p["eps_out"] = p["eps_in"][:1], p["eps_out"][:1]
        else:
            p[kind] = [transfer() if kind == "qs" else pol() for _ in range(ctx.int(6, 12) if kind in ("eps", "qs") else ctx.int(4, 7))]
            if kind == "eps_out":
                p["eps_in"] = p["eps_in"][:1]
            if kind == "eps_in":
                p["eps_out"] = p["eps_out"][:1]
    r = np.linspace(0.01, 6, ctx.int(40, 80))
    a = ctx.rng.uniform(0.8, 2)
    R = r**2 * np.exp(-a * r)
    p["r"], p["R"] = r, R / np.sqrt(np.sum(R**2 * r**2) * (r[1] - r[0]))
    p["R2"] = p["R"]
    if ctx.chance(0.3):  # different final and initial radial functions
        R = r**2 * np.exp(-ctx.rng.uniform(0.8, 2) * r) * (1 + ctx.rng.uniform(-0.3, 0.3) * r)
        p["R2"] = R / np.sqrt(np.sum(R**2 * r**2) * (r[1] - r[0]))
    return p


FILES = ("PS.dat", "XPS.dat", "NIXS.dat", "XAS.dat", "RIXS.bin")


def arguments(s, p, h5f):
    n = s.n
    psis = [fock.psi_to_bytes(x, n) for x in s.psis]
    return [s.es, psis, s.hop, p["T"], p["w"], p["delta"], p["eps"], p["wLoss"], p["deltaNIXS"], p["qs"], 2, 2, p["R"], np.copy(p["R2"]), p["r"],
            p["wIn"], p["deltaRIXS"], p["eps_in"], p["eps_out"], s.restr, h5f, s.nBaths]


def run(s, p, keep_text=True):
    """Runs the code; returns (datasets, text files)."""
    import h5py

    from impurityModel.ed import spectra

    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            h5f = h5py.File("spectra.h5", "w")
            with contextlib.redirect_stdout(io.StringIO()):
                spectra.simulate_spectra(*arguments(s, p, h5f))
            return read(d)
        finally:
            os.chdir(cwd)


def read(d):
    import h5py

    with h5py.File(os.path.join(d, "spectra.h5"), "r") as f:
        data = {k: np.array(f[k]) for k in f}
    text = {}
    for name in FILES:
        path = os.path.join(d, name)
        if os.path.exists(path):
            text[name] = np.fromfile(path, dtype=np.float32) if name.endswith("bin") else np.loadtxt(path, ndmin=2)
    return data, text


def reference(s, p, cut=1e-7, which=("PS", "XPS", "NIXS", "XAS", "RIXS")):
    """{dataset: (values, tolerance array)} for [state, operator, ...]; entries the method cannot resolve are NaN."""
    ix, rm = s.ix, s.rm
    out = {}
    cache = []

    def collect(ops, w, delta, sign=1.0):
        g = np.zeros((len(s.es), len(ops), len(w)))
        t = np.zeros((len(s.es), len(ops), 1))
        for i, (e, psi) in enumerate(zip(s.es, s.psis)):
            for j, o in enumerate(ops):
                r = spec.spectrum(s.op, o, psi, e, w, delta, rm, cut=cut, cache=cache)
                if r is None:
                    g[i, j], t[i, j] = np.nan, np.nan
                else:
                    g[i, j], t[i, j] = -sign * r[0].imag, r[1]
        return g, t

    if "PS" in which:
        a, ta = collect(spec.photo(ix, 2, "c"), p["w"], p["delta"])
        b, tb = collect(spec.photo(ix, 2, "a"), -p["w"], -p["delta"], -1.0)
        out["PS"] = (a + b, ta + tb)
    if "XPS" in which:
        out["XPS"] = collect(spec.photo(ix, 1, "a"), -p["w"], -p["delta"], -1.0)
    if "NIXS" in which:
        out["NIXS"] = collect([spec.nixs(ix, q, 2, 2, p["R"], p.get("R2", p["R"]), p["r"]) for q in p["qs"]], p["wLoss"], p["deltaNIXS"])
    if "XAS" in which:
        out["XAS"] = collect([spec.dipole(ix, 1, 2, e) for e in p["eps"]], p["w"], p["delta"])
    if "RIXS" in which:
        ti = [spec.dipole(ix, 1, 2, e) for e in p["eps_in"]]
        to = [fock.dagger(spec.dipole(ix, 1, 2, e)) for e in p["eps_out"]]
        g = np.zeros((len(s.es), len(ti), len(to), len(p["wIn"]), len(p["wLoss"])))
        t = np.zeros(g.shape[:4] + (1,))
        for i, (e, psi) in enumerate(zip(s.es, s.psis)):
            for a, x in enumerate(ti):
                for b, y in enumerate(to):
                    r = spec.rixs(s.op, x, y, psi, e, p["wIn"], p["wLoss"], p["delta"], p["deltaRIXS"], rm, cut=cut, cache=cache)
                    if r is None:
                        g[i, a, b], t[i, a, b] = np.nan, np.nan
                    else:
                        g[i, a, b], t[i, a, b] = -r[0].imag, r[1][:, None]
        out["RIXS"] = (g, t)
    return out


def compare(ctx, name, got, ref, extra=1e-9, /, **info):
    """got: array of the code, ref: (values, tolerances)."""
    g, t = ref
    ctx.check(np.shape(got) == g.shape, "shape of %s" % name, got=np.shape(got), want=g.shape, **info)
    ok = np.isfinite(g)
    ctx.check(np.all(np.isfinite(got)), "%s is not finite" % name, **info)
    d = np.where(ok, np.abs(got - np.where(ok, g, 0)), 0)
    lim = np.where(ok, np.broadcast_to(np.where(np.isfinite(t), t, 0), g.shape) + extra, np.inf)
    bad = d > lim
    if np.any(bad):
        i = np.unravel_index(int(np.argmax(np.where(bad, d / lim, 0))), d.shape)
        ctx.check(False, "%s differs from the exact spectrum" % name, at=tuple(int(x) for x in i), got=float(got[i]), want=float(g[i]), tol=float(lim[i]), n_bad=int(bad.sum()), **info)
    ctx.counters["oracle_comparisons"] += int(ok.sum())
    return int(ok.sum())
