"""C13: the assembled Hamiltonian is exactly the sum of the specified terms."""
import json
import os
import pickle
import tempfile
from collections import OrderedDict

import numpy as np

from impurityModel.ed import finite, get_spectra, get_spectra_using_CF
from vm import atomic, fock, gen
from vm.consts import REPO
from vm.core import W

KEYS = ["e_imp", "e_deltaO_imp", "e_val_eg", "e_val_t2g", "e_con_eg", "e_con_t2g", "v_val_eg", "v_val_t2g", "v_con_eg", "v_con_t2g"]
NIO = dict(zip(KEYS, [-1.31796, 0.60422, -4.4, -6.5, 3, 2, 1.883, 1.395, 0.6, 0.4]))


def number(ctx, lo, hi):
    return ctx.pick([0, ctx.int(int(lo), int(hi)), ctx.rng.uniform(lo, hi), ctx.rng.uniform(lo, hi), ctx.rng.uniform(lo, hi), round(ctx.rng.uniform(lo, hi), 2)])


def params(ctx):
    Fdd = [number(ctx, 0, 10), ctx.pick([0, 0.0]), number(ctx, 0, 12), 0, number(ctx, 0, 9)]
    Fpp = ctx.pick([[0.0, 0.0, 0.0], [number(ctx, 0, 9), 0, number(ctx, 0, 9)]])
    Fpd = [number(ctx, 0, 10), 0, number(ctx, 0, 10)]
    Gpd = [0.0, number(ctx, 0, 6), 0, number(ctx, 0, 4)]
    t = ctx.pick([tuple, list])
    sc = [t(Fdd), t(Fpp), t(Fpd), t(Gpd)]
    soc = [number(ctx, 0, 15), number(ctx, -1, 1)]
    h = t([number(ctx, -1, 1) for _ in range(3)])
    n0 = OrderedDict([(1, 6), (2, ctx.int(0, 10))])
    if ctx.chance(0.3):
        n0 = OrderedDict([(2, n0[2]), (1, 6)])
    return sc, soc, [n0, number(ctx, -3, 3)], h


def dc_values(sc, n3d, c):
    Fdd, Fpp, Fpd, Gpd = sc
    udd = Fdd[0] - 14 / 441 * (Fdd[2] + Fdd[4])
    upd = Fpd[0] - Gpd[1] / 15 - 3 / 70 * Gpd[3]
    return udd * n3d + upd * 6 - c, upd * (n3d + 1) - c


def atomic_part(sc, soc, dcinfo, h):
    d, p = dc_values(sc, dcinfo[0][2], dcinfo[1])
    m2 = atomic.soc_matrix(2, soc[1]) + atomic.zeeman_matrix(2, h) - d * np.eye(10)
    m1 = atomic.soc_matrix(1, soc[0]) - p * np.eye(6)
    return fock.add_ops(atomic.slater_condon(*sc), atomic.op_of_matrix(atomic.shell(2), m2), atomic.op_of_matrix(atomic.shell(1), m1))


def cf_matrix(par, con, basis="spherical"):
    """One-body matrix on 3d labels followed by the bath labels; None where only the modulus is fixed."""
    u = atomic.cubic_matrix(2)
    e = lambda a, b: np.diag([a, a, b, b, b]).astype(complex)
    imp = u @ e(par["e_imp"] + 0.6 * par["e_deltaO_imp"], par["e_imp"] - 0.4 * par["e_deltaO_imp"]) @ u.conj().T
    nb = 20 if con else 10
    m = np.zeros((10 + nb, 10 + nb), dtype=complex)
    ub = u if basis == "spherical" else np.eye(5)
    for s in range(2):
        m[5 * s:5 * s + 5, 5 * s:5 * s + 5] = imp
        for k, name in enumerate(["val", "con"][: 2 if con else 1]):
            b = slice(10 + 10 * k + 5 * s, 15 + 10 * k + 5 * s)
            i = slice(5 * s, 5 * s + 5)
            m[b, b] = ub @ e(par["e_%s_eg" % name], par["e_%s_t2g" % name]) @ ub.conj().T
            v = ub @ e(par["v_%s_eg" % name], par["v_%s_t2g" % name]) @ u.conj().T
            m[b, i] = v
            m[i, b] = v.conj().T
    labels = atomic.shell(2) + [(2, k) for k in range(nb)]
    return labels, m


def cf_parameters(ctx):
    mode = ctx.int(0, 4)
    given = {}
    if mode:
        for k in KEYS:
            if ctx.chance([0, 0.3, 0.6, 0.9, 1][mode]):
                given[k] = number(ctx, -8, 8) if k[0] == "e" else number(ctx, -3, 3)
    if ctx.chance(0.1):
        given["comment"] = "not a parameter"
    items = list(given.items())
    ctx.rng.shuffle(items)
    return dict(items)


def layouts(ctx, con):
    nb = OrderedDict([(1, 0), (2, 20 if con else 10)])
    nv = OrderedDict([(1, 0), (2, 10)])
    if ctx.chance(0.3):
        k = ctx.pick([0, 2])
        nb = OrderedDict([(2, nb[2]), (1, k)])
        nv = OrderedDict([(2, 10), (1, k)])
    return nb, nv


def index(nBaths):
    return gen.index_of(nBaths)


def compare(ctx, hop, want_labels, nBaths, msg, /, **info):
    ix = index(nBaths)
    n = len(ix)
    for p in hop:
        for i, t in p:
            ctx.check(isinstance(i, (int, np.integer)) and 0 <= i < n and t in ("c", "a"), "not in the index numbering of the system", process=p)
    got, want = atomic.canonical(hop, 1e-13), atomic.canonical(atomic.relabel(want_labels, ix), 1e-13)
    ctx.close_dict(got, want, msg, rtol=1e-10, atol=1e-10, **info)
    herm = atomic.canonical(fock.dagger(hop), 1e-13)
    ctx.close_dict(got, herm, "assembled Hamiltonian is not Hermitian", rtol=1e-12, atol=1e-12, **info)
    finite.assert_hermitian(hop)
    ctx.event("hamiltonians_compared")
    ctx.event("hamiltonian_terms", len(want))


def resolvent(m, z):
    return np.linalg.inv(z * np.eye(len(m)) - m)[:10, :10]


def w_cf(ctx):
    sc, soc, dcinfo, h = params(ctx)
    given = cf_parameters(ctx)
    par = dict(NIO, **given)
    con = ctx.chance(0.5)
    nb, nv = layouts(ctx, con)
    basis = ctx.pick([None, "spherical", "cubic"])
    info = dict(sc=sc, soc=soc, dc=dcinfo, h=h, given=given, nBaths=dict(nb), bath_basis=basis)
    ctx.case(repr(info), sample=info)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "cf.json")
        with open(f, "w") as fh:
            json.dump(given, fh, indent=ctx.pick([None, 1]))
        keep = repr((sc, soc, dcinfo, h, nb, nv))
        kw = {} if basis is None else dict(bath_state_basis=basis)
        hop = get_spectra_using_CF.get_hamiltonian_operator_using_CF(nb, nv, sc, soc, dcinfo, h, f, **kw)
        ctx.check(repr((sc, soc, dcinfo, h, nb, nv)) == keep, "the input parameters were modified")
        vals = get_spectra_using_CF.read_h0_CF_file(f)
        ctx.check(list(vals) == [par[k] for k in KEYS], "crystal-field parameters read from the file", got=vals, want=par)
        h0 = get_spectra_using_CF.get_CF_hamiltonian(nb, nv, f, **kw)
        h0s = get_spectra_using_CF.get_CF_hamiltonian(nb, nv, f, "spherical")
        h0c = get_spectra_using_CF.get_CF_hamiltonian(nb, nv, f, bath_state_basis="cubic")
    labels, m = cf_matrix(par, con)
    ctx.close(atomic.matrix_of_op(h0s, labels), m, "crystal-field Hamiltonian (spherical bath)", rtol=1e-11, atol=1e-11, **info)
    # cubic bath: signs of the bath orbitals are a convention
    _, mc = cf_matrix(par, con, "cubic")
    gc = atomic.matrix_of_op(h0c, labels)
    ctx.close(np.abs(gc), np.abs(mc), "crystal-field Hamiltonian (cubic bath)", rtol=1e-11, atol=1e-11, **info)
    ctx.close(np.diag(gc), np.diag(mc), "on-site energies (cubic bath)", rtol=1e-11, atol=1e-11, **info)
    for z in (0.3 + 0.7j, -5.2 + 0.4j, 2.1 + 0.2j):
        ctx.close(resolvent(gc, z), resolvent(m, z), "the physics depends on the bath basis", rtol=1e-9, atol=1e-10, **info)
        ctx.event("bath_bases_compared")
    for e, x in (("spherical", h0s), ("cubic", h0c)):
        if (basis or "spherical") == e:
            ctx.close_dict(h0, x, "bath_state_basis argument", rtol=1e-12, **info)
    want = fock.add_ops(atomic_part(sc, soc, dcinfo, h), h0c if basis == "cubic" else atomic.op_of_matrix(labels, m))
    compare(ctx, hop, want, nb, "assembled Hamiltonian (crystal field)", **info)


def w_pickle(ctx):
    sc, soc, dcinfo, h = params(ctx)
    kind = ctx.pick(["shipped", "random", "random", "random"])
    with tempfile.TemporaryDirectory() as d:
        if kind == "shipped":
            name = ctx.pick(["10", "20", "50", "50p10", "100", "300"])
            f = os.path.join(REPO, "h0", "h0_NiO_%sbath.pickle" % name)
            n = {"10": 10, "20": 20, "50": 50, "50p10": 60, "100": 100, "300": 300}[name]
            nb = OrderedDict([(1, 0), (2, n)])
            h0 = pickle.load(open(f, "rb"))
        else:
            pb, db = ctx.pick([0, 0, 2, 4]), ctx.pick([0, 1, 3, 10, 25])
            nb = OrderedDict([(1, pb), (2, db)]) if ctx.chance(0.7) else OrderedDict([(2, db), (1, pb)])
            labels = gen.labels(nb)
            raw = gen.hermitian(ctx, len(labels), ctx.int(0, 25), 0, kind=ctx.pick(["float", "complex", None]), diag=ctx.chance(0.5))
            h0 = {tuple((labels[i], t) for i, t in p): v for p, v in raw.items()}
            if ctx.chance(0.2):
                x = (2, 0, 0)
                h0[((x, "c"), (x, "a"))] = 0
            f = os.path.join(d, "h0.pickle")
            pickle.dump(h0, open(f, "wb"))
        nv = OrderedDict((l, ctx.int(0, b)) for l, b in nb.items())
        info = dict(sc=sc, soc=soc, dc=dcinfo, h=h, kind=kind, nBaths=dict(nb), h0_terms=len(h0))
        ctx.case(repr(info), repr(h0), sample=info)
        keep = repr((sc, soc, dcinfo, h, nb, nv))
        hop = get_spectra.get_hamiltonian_operator(nb, nv, sc, soc, dcinfo, h, f)
        ctx.check(repr((sc, soc, dcinfo, h, nb, nv)) == keep, "the input parameters were modified")
        again = get_spectra.read_pickled_file(f)
        ctx.check(again == h0, "stored operator is not what was read")
    compare(ctx, hop, fock.add_ops(atomic_part(sc, soc, dcinfo, h), h0), nb, "assembled Hamiltonian (stored operator)", **info)
    ctx.event("stored_operators")


def w_sequence(ctx):
    """Hamiltonians assembled one after the other in one process; few things change from one to the next (also the content of the file)."""
    cf = ctx.chance(0.5)

    def content():
        if cf:
            return cf_parameters(ctx)
        raw = gen.hermitian(ctx, len(labels), ctx.int(1, 12), 0, kind=ctx.pick(["float", "complex"]), diag=ctx.chance(0.5))
        return {tuple((labels[i], t) for i, t in p): v for p, v in raw.items()}

    con = ctx.chance(0.5)
    nb, nv = layouts(ctx, con)
    labels = gen.labels(nb)
    sc, soc, dcinfo, h = params(ctx)
    cur = dict(sc=sc, soc=soc, dc=dcinfo, h=h, content=content(), basis="spherical")
    done = []
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "h0")
        for step in range(ctx.int(3, 7)):
            if step:
                new = dict(zip(("sc", "soc", "dc", "h"), params(ctx)), content=content(), basis=ctx.pick(["spherical", "cubic"]))
                change = ctx.rng.sample(sorted(cur), 1 if ctx.chance(0.7) else 2)
                if ctx.chance(0.2):
                    con, change = not con, change + ["layout"]
                    nb, nv = layouts(ctx, con)
                    labels = gen.labels(nb)
                    if not cf:
                        new["content"], change = content(), change + ["content"]
                cur = dict(cur, **{k: new[k] for k in change if k in new})
            else:
                change = []
            with open(f, "w" if cf else "wb") as fh:
                json.dump(cur["content"], fh) if cf else pickle.dump(cur["content"], fh)
            a = [nb, nv, cur["sc"], cur["soc"], cur["dc"], cur["h"], f]
            if cf:
                hop = get_spectra_using_CF.get_hamiltonian_operator_using_CF(*a, bath_state_basis=cur["basis"])
                lab, m = cf_matrix(dict(NIO, **cur["content"]), con)
                h0 = atomic.op_of_matrix(lab, m)
                if cur["basis"] == "cubic":  # (signs of the bath orbitals are a convention: taken from the code, judged here by the modulus)
                    h0 = get_spectra_using_CF.get_CF_hamiltonian(nb, nv, f, bath_state_basis="cubic")
                    mc = cf_matrix(dict(NIO, **cur["content"]), con, "cubic")[1]
                    ctx.close(np.abs(atomic.matrix_of_op(h0, lab)), np.abs(mc), "crystal-field Hamiltonian (cubic bath)", rtol=1e-11, atol=1e-11, step=step, changed=change)
            else:
                hop = get_spectra.get_hamiltonian_operator(*a)
                h0 = cur["content"]
            compare(ctx, hop, fock.add_ops(atomic_part(cur["sc"], cur["soc"], cur["dc"], cur["h"]), h0), nb, "assembled Hamiltonian depends on an earlier one", step=step, changed=change, crystal_field=cf)
            done.append(repr(cur))
            hop.clear()  # what the caller does with the result must not matter
            ctx.event("hamiltonians_in_sequence")
    ctx.case(repr(done), sample=dict(steps=len(done), crystal_field=cf))


def w_reject(ctx):
    """A stored operator that is not Hermitian is rejected, whatever term is wrong."""
    labels = gen.labels(OrderedDict([(1, 0), (2, 4)]))
    raw = gen.hermitian(ctx, len(labels), 6, 0)
    h0 = {tuple((labels[i], t) for i, t in p): v for p, v in raw.items()}
    i, j = ctx.rng.sample([x for x in labels if x[0] == 2], 2)
    p, q = ((i, "c"), (j, "a")), ((j, "c"), (i, "a"))
    mode = ctx.int(0, 2)
    v = ctx.coef("complex")
    if mode == 0:
        h0[p] = h0.get(p, 0) + v
    elif mode == 1:
        h0[p], h0[q] = v, v
        if abs(v.imag) < 1e-3:
            return
    else:
        x = ((i, "c"), (i, "a"))
        h0[x] = h0.get(x, 0) + 1j * abs(v)
    sc, soc, dcinfo, h = params(ctx)
    ctx.case("rej", mode, repr(h0))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "h0.pickle")
        pickle.dump(h0, open(f, "wb"))
        nb = OrderedDict([(1, 0), (2, 4)])
        ctx.raises(lambda: get_spectra.get_hamiltonian_operator(nb, nb, sc, soc, dcinfo, h, f), "a non-Hermitian operator was accepted", mode=mode)
    ctx.event("non_hermitian_rejected")


def w_dc(ctx):
    sc, soc, dcinfo, h = params(ctx)
    n, c = dcinfo[0][2], dcinfo[1]
    ctx.case("dc", repr(sc), n, c)
    got = finite.dc_MLFT(n3d_i=n, c=c, Fdd=sc[0], n2p_i=6, Fpd=sc[2], Gpd=sc[3])
    ctx.close(np.array(got), np.array(dc_values(sc, n, c)), "double counting", rtol=1e-12, atol=1e-12, sc=sc, n=n, c=c)
    got = finite.dc_MLFT(n, c, sc[0])
    ctx.close(got, (sc[0][0] - 14 / 441 * (sc[0][2] + sc[0][4])) * n - c, "double counting of the 3d shell alone", rtol=1e-12, atol=1e-12, sc=sc, n=n, c=c)
    mode = ctx.int(0, 3)
    bad = [dict(n3d_i=n + 0.5, c=c, Fdd=sc[0]), dict(n3d_i=n, c=c, Fdd=sc[0], n2p_i=5.5, Fpd=sc[2], Gpd=sc[3]),
           dict(n3d_i=n, c=c, Fdd=sc[0], n2p_i=ctx.int(0, 5), Fpd=sc[2], Gpd=sc[3]), dict(n3d_i=n, c=c, Fdd=sc[0], n2p_i=6, Fpd=sc[2])][mode]
    ctx.raises(lambda: finite.dc_MLFT(**bad), "inconsistent double-counting input was accepted", bad=bad)
    ctx.event("double_countings")


WORKLOADS = [W("cf", w_cf, 160, 2000), W("pickle", w_pickle, 160, 2000), W("sequence", w_sequence, 60, 800), W("reject", w_reject, 60, 600), W("dc", w_dc, 200, 2000)]
