"""C24: physical invariances: relabelling, energy zero, gauge, order of terms, rotations, cubic symmetry."""
import contextlib
import io
import json
import os
import tempfile
from collections import OrderedDict

import numpy as np

from impurityModel.ed import average, finite, get_spectra_using_CF, spectra
from vm import atomic, fock, gen, spec, systems
from vm.core import Skip, W
from checks import c13, c17, c18


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


# ---- conventions: orbital numbers, orbital phases, energy zero, order of terms

class Change:
    """A change of conventions of a system with n orbitals."""

    def __init__(self, ctx, n, kinds):
        self.kinds, self.n = kinds, n
        self.perm = list(range(n))
        if "numbers" in kinds:
            ctx.rng.shuffle(self.perm)
        self.phi = [ctx.rng.uniform(0, 2 * np.pi) if "phases" in kinds else 0.0 for _ in range(n)]
        if "phases" in kinds and ctx.chance(0.3):  # signs and powers of i
            self.phi = [ctx.pick([0, 0.5, 1, 1.5]) * np.pi for _ in range(n)]
        self.e = ctx.rng.uniform(-20, 20) if "zero" in kinds else 0.0
        self.extra = ctx.pick([1, 2, 8]) if "unused" in kinds else 0
        self.ctx = ctx

    def orbital(self, i):
        return self.perm[i]

    def op(self, op, shift=False):
        out = {}
        for p, v in op.items():
            x = sum(self.phi[i] * (1 if t == "c" else -1) for i, t in p)
            out[tuple((self.perm[i], t) for i, t in p)] = v * np.exp(1j * x) if x else v
        if shift and self.e:
            for i in range(self.n):
                q = ((self.perm[i], "c"), (self.perm[i], "a"))
                out[q] = out.get(q, 0) + self.e
        if "order" in self.kinds:
            items = list(out.items())
            self.ctx.rng.shuffle(items)
            out = dict(items)
        return out

    def mask(self, m):
        return fock.mask_of(self.perm[i] for i in fock.occ_of(m))

    def state(self, psi, g=0.0):
        out = {}
        for m, v in psi.items():
            o = [self.perm[i] for i in fock.occ_of(m)]
            sign = (-1) ** sum(1 for a in range(len(o)) for b in range(a) if o[b] > o[a])
            out[fock.mask_of(o)] = v * sign * np.exp(1j * (g + sum(self.phi[i] for i in fock.occ_of(m))))
        items = list(out.items())
        if "order" in self.kinds:
            self.ctx.rng.shuffle(items)
        return dict(items)

    def restrictions(self, r):
        return None if r is None else {frozenset(self.perm[i] for i in k): v for k, v in r.items()}


def changes(ctx, n):
    all_kinds = ["numbers", "phases", "zero", "order", "state phase", "unused"]
    kinds = set(ctx.rng.sample(all_kinds, ctx.pick([1, 1, 2, 3, 6])))
    return Change(ctx, n, kinds)


def dn(op):
    return {sum(1 if t == "c" else -1 for _, t in p) for p in op}


def w_spectra(ctx):
    s = systems.random_core_system(ctx)
    ops = [o for o in c17.transitions(ctx, s, 3) if len(dn(o)) <= 1]
    if not ops:
        raise Skip()
    es, psis = s.states(ctx, ctx.pick([1, 2]))
    w, delta = c17.params(ctx, s)
    cut = 1e-12
    cache = []
    g, t = c17.reference(ctx, s, ops, psis, es, w, delta, cut, cache)
    nel = s.n_core + s.n_val
    c = changes(ctx, s.n)
    ctx.case(s.sig(), sorted(c.kinds), repr(ops), sample=dict(s.describe(), changes=sorted(c.kinds), operators=len(ops)))
    info = dict(s.describe(), changes=sorted(c.kinds), delta=delta, perm=c.perm, shift=c.e)
    par = ctx.pick(["H_build", "eigen_states"])
    a = spectra.getSpectra(s.n, s.h, ops, [fock.psi_to_bytes(p, s.n) for p in psis], es, w, delta, s.restr, slaterWeightMin=cut, parallelization_mode=par)
    h2, n2 = c.op(s.h, True), s.n + c.extra
    psi2 = [fock.psi_to_bytes(c.state(p, ctx.rng.uniform(0, 6) if "state phase" in c.kinds else 0.0), n2) for p in psis]
    e2 = [e + c.e * nel for e in es]
    b = np.zeros_like(np.asarray(a))
    for d in sorted({x for o in ops for x in dn(o)} | {0}):
        sel = [j for j, o in enumerate(ops) if (min(dn(o)) if o else 0) == d]
        if sel:
            b[:, sel] = spectra.getSpectra(n2, h2, [c.op(ops[j]) for j in sel], psi2, e2, np.asarray(w) + c.e * d, delta, c.restrictions(s.restr), slaterWeightMin=cut, parallelization_mode=par)
    a = np.asarray(a)
    for i in range(len(es)):
        for j in range(len(ops)):
            if np.isfinite(t[i, j]):
                ctx.close(b[i, j], a[i, j], "spectrum depends on a convention", rtol=0, atol=2 * t[i, j] + 1e-9, state=i, operator=j, **info)
                ctx.event("spectra_compared")
    for k in c.kinds:
        ctx.event("change_" + k.replace(" ", "_"))


def w_rixs(ctx):
    s, ti, to = c18.system(ctx)
    es, psis = s.states(ctx, 1)
    win, wl, d1, d2 = c18.params(ctx)
    cut = 1e-12
    cache = []
    g, t = c18.reference(s, ti, to, psis, es, win, wl, d1, d2, cut, 1e-5, cache)
    c = changes(ctx, s.n)
    nel = s.n_core + s.n_val
    ctx.case(s.sig(), sorted(c.kinds), sample=dict(s.describe(), changes=sorted(c.kinds)))
    info = dict(s.describe(), changes=sorted(c.kinds), deltas=(d1, d2), perm=c.perm, shift=c.e)
    par = ctx.pick(c18.PARS)
    a = np.asarray(spectra.getRIXSmap(s.n, s.h, ti, to, [fock.psi_to_bytes(p, s.n) for p in psis], es, win, wl, d1, d2, s.restr, slaterWeightMin=cut, parallelization_mode=par))
    n2 = s.n + c.extra
    psi2 = [fock.psi_to_bytes(c.state(p, 1.3 if "state phase" in c.kinds else 0.0), n2) for p in psis]
    b = np.asarray(spectra.getRIXSmap(n2, c.op(s.h, True), [c.op(x) for x in ti], [c.op(x) for x in to], psi2, [e + c.e * nel for e in es], win, wl, d1, d2, c.restrictions(s.restr), slaterWeightMin=cut, parallelization_mode=par))
    for k in np.ndindex(*t.shape):
        if np.isfinite(t[k]):
            ctx.close(b[k], a[k], "RIXS depends on a convention", rtol=0, atol=2 * t[k] + 1e-9, at=k, par=par, **info)
            ctx.event("maps_compared")
    for k in c.kinds:
        ctx.event("change_" + k.replace(" ", "_"))


def w_levels(ctx):
    """Energies, expectation values of operators, active spaces and matrices."""
    s = systems.random_core_system(ctx, n_val_max=8)
    c = changes(ctx, s.n)
    masks = s.ground_masks()
    if not 4 <= len(masks) <= 60:
        raise Skip()
    nel = s.n_core + s.n_val
    n2 = s.n + c.extra
    h2 = c.op(s.h, True)
    info = dict(s.describe(), changes=sorted(c.kinds), perm=c.perm, shift=c.e, dim=len(masks))
    ctx.case(s.sig(), sorted(c.kinds), sample=info)
    m2 = [c.mask(m) for m in masks]
    if "order" in c.kinds:
        ctx.rng.shuffle(m2)
    b1, b2 = [fock.to_bytes(m, s.n) for m in masks], [fock.to_bytes(m, n2) for m in m2]
    k = ctx.int(1, max(1, len(masks) - 2))
    mode = ctx.pick(["full", "Lanczos"])
    e1, p1 = quiet(finite.eigensystem, s.n, s.h, tuple(b1), k, mode)
    e2, p2 = quiet(finite.eigensystem, n2, h2, tuple(b2), k, mode)
    scale = 1 + np.max(np.abs(e1)) + abs(c.e) * nel
    ctx.close(np.asarray(e2) - c.e * nel, e1, "energies depend on a convention", rtol=0, atol=1e-8 * scale, mode=mode, **info)
    ctx.event("energies_compared", len(e1))
    # an observable in the ground state
    gap = np.asarray(e1)[1:] - e1[0]
    if k == 1:
        w = np.linalg.eigvalsh(fock.matrix(s.fop, masks, None))
        gap = w[1:] - w[0]
    if len(gap) == 0 or gap[0] > 1e-2:
        o = gen.hermitian(ctx, s.n, 3, 2, s.val, None)
        x1 = finite.inner(p1[0], finite.applyOp(s.n, o, p1[0]))
        x2 = finite.inner(p2[0], finite.applyOp(n2, c.op(o), p2[0]))
        ctx.close(x2, x1, "expectation value depends on a convention", rtol=0, atol=2e-3 * sum(abs(v) for v in o.values()), mode=mode, **info)
        ctx.event("expectation_values")
    # the active space that H reaches from some of the states
    start = ctx.rng.sample(masks, ctx.int(1, 3))
    a1 = set(finite.expand_basis(s.n, {}, s.h, tuple(fock.to_bytes(m, s.n) for m in start), s.restr, "serial"))
    a2 = set(finite.expand_basis(n2, {}, h2, tuple(fock.to_bytes(c.mask(m), n2) for m in start), c.restrictions(s.restr), "serial"))
    ctx.equal({fock.from_bytes(x, n2) for x in a2}, {c.mask(fock.from_bytes(x, s.n)) for x in a1}, "the active space depends on a convention", start=start, **info)
    ctx.event("active_spaces")
    for kk in c.kinds:
        ctx.event("change_" + kk.replace(" ", "_"))


# ---- rotations

def rotation(ctx):
    q, r = np.linalg.qr(ctx.np.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def direction(ctx):
    """A direction; often along an axis, in a coordinate plane, or a diagonal."""
    v = ctx.np.normal(size=3)
    kind = ctx.pick(["any", "axis", "axis", "plane", "diagonal"])
    if kind == "axis":
        v = np.eye(3)[ctx.int(0, 2)] * ctx.pick([1, -1])
    elif kind == "plane":
        v[ctx.int(0, 2)] = 0.0
    elif kind == "diagonal":
        v = np.array([ctx.pick([1.0, -1.0]) for _ in range(3)])
        if ctx.chance(0.5):
            v[ctx.int(0, 2)] = 0.0
    return v / np.linalg.norm(v)


def turn(ctx):
    """A rotation: any, or one that maps the coordinate axes onto themselves."""
    if ctx.chance(0.5):
        return rotation(ctx)
    q = np.eye(3)[ctx.pick([[0, 1, 2], [0, 2, 1], [1, 0, 2], [2, 1, 0], [1, 2, 0], [2, 0, 1]])] * np.array([[ctx.pick([1.0, -1.0])] for _ in range(3)])
    return q * np.linalg.det(q)


def representation(l, q, spin=False):
    """The rotation q in a shell of angular momentum l (or for spin 1/2)."""
    x = logm_rotation(q)
    g = atomic.s_matrices() if spin else atomic.l_matrices(l)
    w, v = np.linalg.eigh(sum(a * b for a, b in zip(x, g)))
    return (v * np.exp(-1j * w)) @ np.conj(v.T)


def logm_rotation(q):
    """Axis times angle."""
    c = np.clip((np.trace(q) - 1) / 2, -1, 1)
    a = np.arccos(c)
    if a > np.pi - 1e-4:
        w, v = np.linalg.eigh((q + q.T) / 2)
        n = v[:, -1]
        s = np.array([q[2, 1] - q[1, 2], q[0, 2] - q[2, 0], q[1, 0] - q[0, 1]])
        return n * (a if n @ s >= 0 else -a)
    if a < 1e-9:
        return np.zeros(3)
    return a * np.array([q[2, 1] - q[1, 2], q[0, 2] - q[2, 0], q[1, 0] - q[0, 1]]) / (2 * np.sin(a))


def w_operators(ctx):
    """Operators of rotated polarisations, momentum transfers and fields are the rotated operators."""
    nb = OrderedDict([(1, ctx.pick([0, 3])), (2, ctx.pick([0, 1, 10]))])
    q = turn(ctx)
    v = direction(ctx)
    d = {l: np.kron(np.eye(2), representation(l, q)) for l in (1, 2)}
    at = {l: [finite.c2i(nb, x) for x in atomic.shell(l)] for l in (1, 2)}

    def block(op, la, lb):
        m = np.zeros((len(at[la]), len(at[lb])), dtype=complex)
        for p, x in op.items():
            if len(p) == 2 and p[0][0] in at[la] and p[1][0] in at[lb]:
                m[at[la].index(p[0][0]), at[lb].index(p[1][0])] += x
        return m

    info = dict(direction=v, rotation=q)
    ctx.case(repr(v), repr(q), sample=info)

    def covariant(a, b, la, lb, msg, phase=False):
        want = d[la] @ block(a, la, lb) @ np.conj(d[lb].T)
        got = block(b, la, lb)
        if phase:  # (an overall factor cannot be observed)
            x = np.vdot(want, got)
            if abs(x):
                want = want * x / abs(x)
        ctx.close(got, want, msg, rtol=0, atol=1e-9 * (1e-3 + np.max(np.abs(want))), blocks=(la, lb), **info)

    a, b = spectra.getDipoleOperators(nb, [v, q @ v])
    covariant(a, b, 2, 1, "the dipole operator does not rotate with the polarisation", True)
    covariant(a, b, 1, 2, "the dipole operator does not rotate with the polarisation", True)
    a, b = spectra.getDaggeredDipoleOperators(nb, [v, q @ v])
    covariant(a, b, 1, 2, "the daggered dipole operator does not rotate with the polarisation", True)
    r = np.linspace(0.01, 6, 40)
    R = r**2 * np.exp(-ctx.rng.uniform(0.8, 2) * r)
    s = ctx.rng.uniform(0.3, 8)
    la, lb = ctx.pick([(2, 2), (2, 2), (1, 2), (1, 1)])
    a, b = spectra.getNIXSOperators(nb, [list(s * v), list(s * (q @ v))], la, lb, R, R, r)
    covariant(a, b, la, lb, "the scattering operator does not rotate with the momentum transfer", True)
    ctx.event("rotated_operators")
    # fields: the two spin directions of each orbital
    h = ctx.rng.uniform(0.1, 2)
    ds = np.kron(representation(0, q, True), np.eye(5))
    sh = atomic.shell(2)
    m = [atomic.matrix_of_op(finite.gethHfieldop(*[float(y) for y in h * x], l=2), sh) for x in (v, q @ v)]
    ctx.close(m[1], ds @ m[0] @ np.conj(ds.T), "the exchange field does not rotate", rtol=0, atol=1e-9, **info)
    # the spin-orbit coupling and the repulsion do not notice a rotation of everything
    l = ctx.pick([1, 2])
    sh = atomic.shell(l)
    j = np.kron(representation(0, q, True), representation(l, q))
    m = atomic.matrix_of_op(finite.getSOCop(1.3, l=l), sh)
    ctx.close(j @ m @ np.conj(j.T), m, "spin-orbit coupling is not invariant under rotations", rtol=0, atol=1e-9, shell=l, **info)
    ctx.event("rotated_fields_and_couplings")


class Run:
    """Eigenstates and thermally averaged spectra of a 2p-3d ion, calculated by the code."""

    def __init__(self, nBaths, hop, basis, k, T, restr=None):
        self.nBaths, self.hop, self.T, self.restr = nBaths, hop, T, restr
        self.n = sum(2 * (2 * l + 1) + b for l, b in nBaths.items())
        es, self.psis = quiet(finite.eigensystem, self.n, hop, basis, k, "full", slaterWeightMin=0)
        self.es = np.asarray(es)

    def mean(self, a):
        return average.thermal_average(self.es, -np.asarray(a).imag, T=self.T)

    def spectra(self, ops, w, delta):
        return self.mean(spectra.getSpectra(self.n, self.hop, ops, self.psis, self.es, w, delta, self.restr, slaterWeightMin=1e-12))

    def xas(self, eps, w, delta):
        return self.spectra(spectra.getDipoleOperators(self.nBaths, eps), w, delta)

    def nixs(self, qs, R, r, w, delta):
        return self.spectra(spectra.getNIXSOperators(self.nBaths, qs, 2, 2, R, R, r), w, delta)

    def rixs(self, e1, e2, win, wl, d1, d2):
        return self.mean(spectra.getRIXSmap(self.n, self.hop, spectra.getDipoleOperators(self.nBaths, e1), spectra.getDaggeredDipoleOperators(self.nBaths, e2), self.psis, self.es, win, wl, d1, d2, self.restr, slaterWeightMin=1e-12))

    def photo(self, w, delta):
        a = self.spectra(spectra.getInversePhotoEmissionOperators(self.nBaths), w, delta)
        b = self.mean(spectra.getSpectra(self.n, self.hop, spectra.getPhotoEmissionOperators(self.nBaths), self.psis, self.es, -w, -delta, self.restr, slaterWeightMin=1e-12))
        return a.sum(axis=0), b.sum(axis=0)

    def moments(self):
        f = lambda fn: float(np.real(average.thermal_average(self.es, np.array([fn(self.nBaths, p) for p in self.psis]), T=self.T)))
        return {x.__name__: f(x) for x in (finite.getSsqr3d, finite.getLsqr3d, finite.getTraceDensityMatrix)}


def ion(ctx, nds):
    """Parameters of an ion: (layout, basis, operators without field)."""
    nd = ctx.pick(nds)
    F = ctx.rng.uniform
    nBaths = OrderedDict([(1, 0), (2, 0)])
    z = OrderedDict([(1, 0), (2, 0)])
    basis = quiet(finite.get_basis, nBaths, z, z, z, z, OrderedDict([(1, 6), (2, nd)]))
    sc = dict(Fdd=[F(0, 6), 0, F(1, 8), 0, F(1, 6)], Fpp=[0, 0, 0], Fpd=[F(0, 6), 0, F(1, 6)], Gpd=[0, F(0.5, 4), 0, F(0.5, 3)])
    x0 = F(-5, 5)
    shift = {((x, "c"), (x, "a")): x0 for x in atomic.shell(2)}
    soc = finite.addOps([finite.getSOCop(F(2, 8), l=1), finite.getSOCop(F(0.03, 0.3), l=2)])
    label = lambda op: {tuple((finite.c2i(nBaths, x), t) for x, t in p): v for p, v in op.items()}
    h = finite.addOps([label(finite.get2p3dSlaterCondonUop(**sc)), label(shift), label(soc)])
    return nBaths, nd, basis, h, label


def levels(h, basis, n, kmax):
    """The number of the lowest states, complete multiplets, at most kmax."""
    w = np.linalg.eigvalsh(fock.matrix(fock.Op(h), [fock.from_bytes(b, n) for b in basis]))
    ks = [k for k in range(1, len(w) + 1) if k <= kmax and (k == len(w) or w[k] - w[k - 1] > 1e-3)]
    if not ks:
        raise Skip()
    return ks, w


def setup(ctx):
    w = np.linspace(-12, 12, 25)
    r = np.linspace(0.01, 6, 80)
    R = r**2 * np.exp(-ctx.rng.uniform(0.8, 2) * r)
    return w, ctx.rng.uniform(0.2, 0.6), r, R / np.sqrt(np.sum(R**2 * r**2) * (r[1] - r[0]))


def near(ctx, a, b, msg, tol, /, **info):
    ctx.close(a, b, msg, rtol=tol, atol=1e-9, **info)


def w_rotation(ctx):
    nBaths, nd, basis, h0, label = ion(ctx, [1, 8, 9, 9])
    q = turn(ctx)
    hv = np.array([0, 0, 1.0] if ctx.chance(0.4) else ctx.np.normal(size=3)) * ctx.pick([0, 0.05, 0.3, 1.0])
    hams = [finite.addOps([h0, label(finite.gethHfieldop(*[float(x) for x in v], l=2))]) for v in (hv, q @ hv)]
    ks, wex = levels(hams[0], basis, 16, 10 if nd == 9 else 6 if nd == 8 else 10)
    k = ctx.pick(ks[-2:])
    T = ctx.pick([1, 300, 3000, 1e5])
    info = dict(nd=nd, field=hv, rotation=q, states=k, T=T)
    ctx.case(repr(sorted(h0.items(), key=repr)), repr(hv), repr(q), sample=info)
    a, b = [Run(nBaths, h, basis, k, T) for h in hams]
    ctx.close(b.es, a.es, "energies change under rotation", rtol=1e-8, atol=1e-8, **info)
    ctx.event("rotations")
    if np.any(hv):
        ctx.event("rotated_fields")
    ma, mb = a.moments(), b.moments()
    for x in ma:
        ctx.close(mb[x], ma[x], "an expectation value changes under rotation", rtol=0, atol=1e-6 * (1 + abs(ma[x])), quantity=x, **info)
    w, delta, r, R = setup(ctx)
    what = ctx.pick(["xas", "xas", "nixs", "rixs", "photo"])
    vec = [direction(ctx) for _ in range(2)]
    rot = [q @ v for v in vec]
    if what == "xas":
        near(ctx, b.xas(rot, w, delta), a.xas(vec, w, delta), "XAS changes under rotation of field and polarisation", 1e-3, **info)
    elif what == "nixs":
        s = ctx.rng.uniform(0.5, 6)
        near(ctx, b.nixs([s * v for v in rot], R, r, w, 0.2), a.nixs([s * v for v in vec], R, r, w, 0.2), "NIXS changes under rotation of field and momentum", 1e-3, **info)
    elif what == "photo":
        for x, y in zip(b.photo(w, delta), a.photo(w, delta)):
            near(ctx, x, y, "photoemission changes under rotation", 1e-3, **info)
    else:
        win, wl = np.linspace(-6, 6, 3), np.linspace(-1, 6, 15)
        near(ctx, b.rixs(rot[:1], rot[1:], win, wl, 0.4, 0.2), a.rixs(vec[:1], vec[1:], win, wl, 0.4, 0.2), "RIXS changes under rotation of field and polarisations", 5e-3, **info)
    ctx.event("rotation_" + what)


# ---- cubic symmetry

def w_cubic(ctx):
    bath = ctx.chance(0.35)
    F = ctx.rng.uniform
    if bath:
        nBaths, nVal = OrderedDict([(1, 0), (2, 10)]), OrderedDict([(1, 0), (2, 10)])
        nd = ctx.pick([9, 9, 8]) if ctx.thorough else 9
        one = OrderedDict([(1, 0), (2, 1)])
        zero = OrderedDict([(1, 0), (2, 0)])
        basis = quiet(finite.get_basis, nBaths, nVal, one, zero, one, OrderedDict([(1, 6), (2, nd)]))
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "cf.json")
            with open(f, "w") as fh:
                json.dump({k: c13.NIO[k] + round(F(-0.3, 0.3), 3) for k in c13.NIO}, fh)
            h = quiet(get_spectra_using_CF.get_hamiltonian_operator_using_CF, nBaths, nVal, [[7.5, 0, F(6, 11), 0, F(4, 8)], [0, 0, 0], [8.9, 0, F(4, 8)], [0, F(3, 6), 0, F(1, 4)]], [F(6, 12), F(0.02, 0.2)], [OrderedDict([(1, 6), (2, nd)]), 1.5], (0, 0, 0), f)
        n = 26
        dorb = frozenset(finite.c2i(nBaths, x) for x in atomic.shell(2))
        bat = frozenset(finite.c2i(nBaths, (2, b)) for b in range(10))
        restr = {dorb: (nd - 1, nd + 2), bat: (9, 10)}
    else:
        nBaths, nd, basis, h, label = ion(ctx, [1, 8, 9, 9])
        n, restr = 16, None
        h = finite.addOps([h, label(atomic.op_of_matrix(atomic.shell(2), np.kron(np.eye(2), atomic.cubic_field(F(0.2, 2)))))])
    ks, wex = levels(h, basis, n, 10)
    k = ctx.pick(ks[-3:])
    T = ctx.pick([1, 300, 3000, 1e5])
    info = dict(nd=nd, bath=bath, states=k, T=T)
    ctx.case(repr(sorted(h.items(), key=repr)), k, T, sample=info)
    a = Run(nBaths, h, basis, k, T, restr)
    w, delta, r, R = setup(ctx)
    # occupations
    dm = np.asarray(average.thermal_average(a.es, np.array([np.asarray(density(nBaths, p)) for p in a.psis]), T=T))
    occ = np.real(np.diag(dm))
    for grp, name in ((EG, "eg"), (T2G, "t2g")):
        ctx.close(occ[grp], np.full(len(grp), occ[grp].mean()), "occupations of equivalent orbitals differ in cubic symmetry", rtol=0, atol=1e-6, group=name, occupations=occ, **info)
    off = dm - np.diag(np.diag(dm))
    ctx.close(off, np.zeros_like(off), "off-diagonal density matrix in cubic symmetry", rtol=0, atol=1e-6, **info)
    ctx.event("cubic_densities")
    what = ctx.pick(["xas", "xas", "nixs", "rixs"])
    eye = np.eye(3)
    if what == "rixs" and bath:
        what = "xas"
    if what == "xas":
        s = a.xas(list(eye) + [[1, 1, 1], [0.6, 0, -0.8]], w, delta)
        lim = 1e-3
        for i in (1, 2):
            near(ctx, s[i], s[0], "XAS for x, y and z differs in cubic symmetry", lim, axis=i, **info)
        near(ctx, s[3] / 3, s[0], "XAS depends on the direction in cubic symmetry", lim, **info)
        near(ctx, s[4], s[0], "XAS depends on the direction in cubic symmetry", lim, **info)
    elif what == "nixs":
        m = F(0.5, 6)
        dirs = list(eye) + [np.array(v) / 3**0.5 for v in ([1, 1, 1], [-1, 1, 1], [1, 1, -1])]
        dirs += [-eye[ctx.int(0, 2)], np.array([0, 1, 1]) / 2**0.5] + [np.array(v) / 2**0.5 for v in ctx.rng.sample([[0, -1, 1], [1, 0, 1], [-1, 0, 1], [1, 1, 0], [-1, 1, 0], [0, -1, -1], [-1, 0, -1], [-1, -1, 0]], 2)]
        s = a.nixs([m * v for v in dirs], R, r, w, 0.2)
        for i, j in ((1, 0), (2, 0), (4, 3), (5, 3), (6, 0), (8, 7), (9, 7)):
            near(ctx, s[i], s[j], "NIXS differs for equivalent directions in cubic symmetry", 1e-3, q=i, **info)
    else:
        s = a.rixs(eye, eye, np.linspace(-6, 6, 3), np.linspace(-1, 6, 15), 0.4, 0.2)
        for i in range(3):
            for j in range(3):
                near(ctx, s[i, j], s[0, 0] if i == j else s[0, 1], "RIXS differs for equivalent polarisations in cubic symmetry", 5e-3, pair=(i, j), **info)
    ctx.event("cubic_" + what)
    ctx.event("cubic_systems")


CUBIC = atomic.cubic_matrix(2)
EG, T2G = [0, 1], [2, 3, 4]


def density(nBaths, psi):
    """Spin-summed density matrix in the cubic harmonics, from the code's density matrix in the spherical ones."""
    d = finite.getDensityMatrix(nBaths, psi)
    m = np.zeros((5, 5), dtype=complex)
    for (x, y), v in d.items():
        if x[1] == y[1]:
            m[x[2] + 2, y[2] + 2] += v
    u = CUBIC
    return np.conj(u.T) @ m @ u


WORKLOADS = [W("operators", w_operators, 600, 20000), W("rotation", w_rotation, 72, 1500), W("cubic", w_cubic, 56, 1000), W("spectra", w_spectra, 320, 9000), W("rixs", w_rixs, 120, 3500), W("levels", w_levels, 240, 8000)]
