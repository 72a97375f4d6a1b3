"""Tasks executed by every rank of a monitored MPI job (see mpi_child.py). They only call the code under test."""
import numpy as np


def dense(x):
    return np.asarray(x.todense() if hasattr(x, "todense") else x)


def matrix(rank, size, d, n, op, basis, mode):
    from impurityModel.ed import finite

    return dense(finite.get_hamiltonian_matrix(n, op, tuple(basis), mode))


def matrix_h_dict(rank, size, d, stores, basis, local):
    from impurityModel.ed import finite

    h, index = finite.get_hamiltonian_matrix_from_h_dict(stores[rank], tuple(basis), "H_build", local)
    return dense(h), index


def expand(rank, size, d, n, op, basis0, restrictions, stores, mode, rounds=()):
    """Expands from basis0 and then, with the same store, from every entry of rounds."""
    from impurityModel.ed import finite

    h = stores[rank]
    out = [(finite.expand_basis(n, h, op, tuple(basis0), restrictions, mode), {k: dict(v) for k, v in h.items()})]
    for b in rounds:
        out.append((finite.expand_basis(n, h, op, tuple(b), restrictions, mode), {k: dict(v) for k, v in h.items()}))
    return out


def expand_hamiltonian(rank, size, d, n, op, basis0, restrictions, stores, mode, local):
    from impurityModel.ed import finite

    h = stores[rank]
    m, index = finite.expand_basis_and_hamiltonian(n, h, op, tuple(basis0), restrictions, mode, local)
    return dense(m), index, {k: dict(v) for k, v in h.items()}


def eigensystem(rank, size, d, n, op, basis, k, mode, cut):
    from impurityModel.ed import finite

    es, psis = finite.eigensystem(n, op, tuple(basis), k, mode, slaterWeightMin=cut)
    return np.array(es), psis


def get_basis(rank, size, d, args):
    from collections import OrderedDict

    from impurityModel.ed import finite

    return finite.get_basis(*[OrderedDict(x) for x in args])


def green(rank, size, d, n, e, psi, op, omega, delta, krylov, restrictions, mode, par):
    from impurityModel.ed import spectra

    h = {}
    g = spectra.getGreen(n, e, psi, op, omega, delta, krylov, 1e-12, restrictions, h, mode=mode, parallelization_mode=par)
    return np.array(g), h


def spectra(rank, size, d, n, op, tops, psis, es, w, delta, restrictions, par, cut=1e-7):
    from impurityModel.ed import spectra as sp

    return np.array(sp.getSpectra(n, op, tops, psis, es, w, delta, restrictions, slaterWeightMin=cut, parallelization_mode=par))


def rixs(rank, size, d, n, op, tin, tout, psis, es, win, wloss, d1, d2, restrictions, par, cut=1e-7):
    from impurityModel.ed import spectra as sp

    hg = {}
    r = sp.getRIXSmap(n, op, tin, tout, psis, es, win, wloss, d1, d2, restrictions, slaterWeightMin=cut, h_dict_ground=hg, parallelization_mode=par)
    return np.array(r), hg


def allgather(rank, size, d, dicts, chunk, total=None):
    from impurityModel.ed import mpi_comm

    mine = dict(dicts[rank])
    total = dict(total or {})
    kw = {} if chunk is None else dict(chunk_maxsize=chunk)
    mpi_comm.allgather_dict(mine, total, **kw)
    return total, mine == dicts[rank]


def dict_chunks(rank, size, d, data, chunk, root):
    from impurityModel.ed import mpi_comm

    out = []
    for c in mpi_comm.dict_chunks_from_one_MPI_rank(data[rank], chunk, root):
        out.append(None if c is None else dict(c))
    return out


def pipeline(rank, size, d, n, op, basis, k, solver, tops, w, delta, restrictions, par, cut, rix=None):
    """Every rank diagonalises and continues with its own eigenstates, as the programs do."""
    from impurityModel.ed import finite, spectra as sp

    es, psis = finite.eigensystem(n, op, tuple(basis), k, solver, slaterWeightMin=cut)
    es = [float(e) for e in es]
    g = np.array(sp.getSpectra(n, op, tops, psis, es, w, delta, restrictions, slaterWeightMin=cut, parallelization_mode=par))
    m = None
    if rix:
        m = np.array(sp.getRIXSmap(n, op, rix["tin"], rix["tout"], psis, es, rix["win"], rix["wloss"], rix["d1"], rix["d2"], restrictions, slaterWeightMin=cut, parallelization_mode=rix["par"]))
    return es, psis, g, m


def history(rank, size, d, n, op, steps, restrictions):
    """Several operations which share one distributed store; its content after every step."""
    from impurityModel.ed import finite, spectra as sp

    h, out = {}, []
    for s in steps:
        if s[0] == "expand":
            r = finite.expand_basis(n, h, op, tuple(s[1]), restrictions, "H_build")
        elif s[0] == "hamiltonian":
            m, r = finite.expand_basis_and_hamiltonian(n, h, op, tuple(s[1]), restrictions, "H_build", s[2])
        else:
            r = np.array(sp.getGreen(n, s[2], s[1], op, s[3], 0.3, 40, 1e-12, restrictions, h, mode="sparse", parallelization_mode="H_build"))
        out.append((r, {k: dict(v) for k, v in h.items()}))
    return out


def simulate(rank, size, d, dirname, s, p):
    """spectra.simulate_spectra, writing into a directory of the job; rank 0 returns the content of all files."""
    import os

    import h5py

    from impurityModel.ed import spectra as sp
    from vm import sim

    cwd = os.getcwd()
    path = os.path.join(d, dirname)
    os.makedirs(path, exist_ok=True)
    os.chdir(path)
    try:
        h5f = h5py.File("spectra.h5", "w") if rank == 0 else None
        sp.simulate_spectra(*sim.arguments(s, p, h5f))
        return sim.read(path) if rank == 0 else None
    finally:
        os.chdir(cwd)


def cli(rank, size, d, dirname, module, argv, thin=1):
    """A complete program run; rank 0 returns the content of all files."""
    import os
    import runpy
    import sys

    from vm import sim

    cwd, av = os.getcwd(), sys.argv
    path = os.path.join(d, dirname)
    os.makedirs(path, exist_ok=True)
    os.chdir(path)
    sys.argv = [module] + list(argv)
    try:
        sys.modules.pop(module, None)
        runpy.run_module(module, run_name="__main__", alter_sys=True)
        if rank:
            return None
        data, text = sim.read(path)
        if thin > 1:
            for x in ("RIXS", "RIXSthermal"):
                data[x] = data[x][..., ::thin]
        return data, text
    finally:
        os.chdir(cwd)
        sys.argv = av
