"""
Independent reference model: Fock space on integer bit masks.

Orbital i is bit i of a Python int (the opposite end compared with the code
under test). |mask> = c^+_{i1} c^+_{i2} ... |0> with i1 < i2 < ...
No code of the repository is used here.
"""
import itertools

import numpy as np


# ---- encodings
def mask_of(occ):
    m = 0
    for i in occ:
        m |= 1 << i
    return m


def occ_of(mask):
    out, i = [], 0
    while mask:
        if mask & 1:
            out.append(i)
        mask >>= 1
        i += 1
    return tuple(out)


def to_bytes(mask, n):
    """bytes representation: orbital 0 is the most significant bit of the first byte."""
    b = bytearray((n + 7) // 8)
    for i in occ_of(mask):
        b[i >> 3] |= 0x80 >> (i & 7)
    return bytes(b)


def from_bytes(b, n):
    m = 0
    for i in range(len(b) * 8):
        if b[i >> 3] & (0x80 >> (i & 7)):
            m |= 1 << i
    assert m < (1 << n), "occupied orbital beyond the number of spin-orbitals"
    return m


def psi_to_bytes(psi, n):
    return {to_bytes(k, n): v for k, v in psi.items()}


def psi_from_bytes(psi, n):
    out = {}
    for k, v in psi.items():
        out[from_bytes(k, n)] = v
    assert len(out) == len(psi), "two keys denote the same product state"
    return out


# ---- operators
def apply_process(mask, process):
    """Returns (mask', sign) or None. The rightmost factor acts first."""
    sign = 1
    for i, action in reversed(process):
        bit = 1 << i
        if action == "a":
            if not mask & bit:
                return None
            mask ^= bit
        else:
            if mask & bit:
                return None
            mask |= bit
        if (mask & (bit - 1)).bit_count() & 1:
            sign = -sign
    return mask, sign


def allowed(mask, restr):
    """restr: list of (mask of orbitals, lo, hi)."""
    if restr is None:
        return True
    return all(lo <= (mask & m).bit_count() <= hi for m, lo, hi in restr)


def restr_masks(restrictions):
    if restrictions is None:
        return None
    return [(mask_of(s), lo, hi) for s, (lo, hi) in restrictions.items()]


def apply_op(op, psi, restr=None):
    out = {}
    for mask, amp in psi.items():
        for process, h in op.items():
            r = apply_process(mask, process)
            if r is not None and allowed(r[0], restr):
                out[r[0]] = out.get(r[0], 0) + amp * h * r[1]
    return out


class Op:
    """Operator with fast application (processes grouped by annihilated orbitals)."""

    def __init__(self, op):
        self.items = []
        for process, h in op.items():
            need, seen_c = 0, 0
            # orbitals which must be occupied initially: first action on the orbital (from the right) is "a"
            first = {}
            for i, act in reversed(process):
                first.setdefault(i, act)
            occ = mask_of(i for i, act in first.items() if act == "a")
            emp = mask_of(i for i, act in first.items() if act == "c")
            self.items.append((occ, emp, tuple(process), h))

    def row(self, mask, restr=None):
        out = {}
        for occ, emp, process, h in self.items:
            if mask & occ == occ and not mask & emp:
                r = apply_process(mask, process)
                if r is not None and allowed(r[0], restr):
                    out[r[0]] = out.get(r[0], 0) + h * r[1]
        return out

    def apply(self, psi, restr=None):
        out = {}
        for mask, amp in psi.items():
            for k, v in self.row(mask, restr).items():
                out[k] = out.get(k, 0) + amp * v
        return out


def dagger(op):
    out = {}
    for process, v in op.items():
        p = tuple((i, "a" if act == "c" else "c") for i, act in reversed(process))
        out[p] = out.get(p, 0) + np.conj(v)
    return out


def add_ops(*ops):
    out = {}
    for op in ops:
        for k, v in op.items():
            out[k] = out.get(k, 0) + v
    return out


def closure(op, start, restr=None, limit=200000, cut=1e-12):
    """Everything reachable from start (through matrix elements with weight of at least cut), and the rows."""
    op = op if isinstance(op, Op) else Op(op)
    rows, todo = {}, list(start)
    seen = set(todo)
    while todo:
        m = todo.pop()
        r = {k: v for k, v in op.row(m, restr).items() if abs(v) ** 2 >= cut}
        rows[m] = r
        for k in r:
            if k not in seen:
                seen.add(k)
                todo.append(k)
        if len(seen) > limit:
            raise RuntimeError("closure too large")
    return seen, rows


def matrix(op, basis, restr=None):
    """Dense matrix of op in the list of masks, <i|op|j>."""
    op = op if isinstance(op, Op) else Op(op)
    idx = {m: i for i, m in enumerate(basis)}
    h = np.zeros((len(basis), len(basis)), dtype=complex)
    for j, m in enumerate(basis):
        for k, v in op.row(m, restr).items():
            i = idx.get(k)
            if i is not None:
                h[i, j] += v
    return h


def vec(psi, basis_index):
    y = np.zeros(len(basis_index), dtype=complex)
    for k, v in psi.items():
        y[basis_index[k]] = v
    return y


def inner(a, b):
    return sum(np.conj(a[k]) * v for k, v in b.items() if k in a)


def norm2(a):
    return float(sum(abs(v) ** 2 for v in a.values()))


# ---- exact spectra
class Space:
    """Eigen-decomposition of a Hermitian operator on the closure of some product states."""

    def __init__(self, op, start, restr=None):
        op = op if isinstance(op, Op) else Op(op)
        masks, rows = closure(op, start, restr)
        self.basis = sorted(masks)
        self.index = {m: i for i, m in enumerate(self.basis)}
        n = len(self.basis)
        h = np.zeros((n, n), dtype=complex)
        for j, m in enumerate(self.basis):
            for k, v in rows[m].items():
                h[self.index[k], j] += v
        self.h = h
        assert np.allclose(h, h.conj().T, atol=1e-9), "Hamiltonian of the generated case is not Hermitian"
        self.w, self.v = np.linalg.eigh((h + h.conj().T) / 2) if n else (np.zeros(0), h)

    def resolvent(self, psi, z):
        """<psi|(z-H)^-1|psi> for all z."""
        if not psi:
            return np.zeros(len(z), dtype=complex)
        y = vec(psi, self.index)
        p = np.abs(self.v.conj().T @ y) ** 2
        z = np.asarray(z)
        return (p[None, :] / (z[:, None] - self.w[None, :])).sum(axis=1)

    def solve(self, psi, z):
        """(z-H)^-1 |psi> as a dict."""
        y = vec(psi, self.index)
        x = self.v @ ((self.v.conj().T @ y) / (z - self.w))
        return {m: x[i] for i, m in enumerate(self.basis)}


def space(op, psi, restr=None, cache=None):
    """Space containing psi; any invariant space in the cache (a list) that contains psi is as good."""
    if cache is not None:
        for sp in cache:
            if all(m in sp.index for m in psi):
                return sp
    sp = Space(op, psi, restr)
    if cache is not None:
        cache.append(sp)
    return sp


def green(op, psi, z, restr=None, cache=None):
    psi = {k: v for k, v in psi.items() if v != 0}
    if not psi:
        return np.zeros(len(z), dtype=complex)
    return space(op, psi, restr, cache).resolvent(psi, z)


def all_masks(n, nel):
    return [mask_of(c) for c in itertools.combinations(range(n), nel)]
