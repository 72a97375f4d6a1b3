"""
Random model systems with a core shell and a valence shell plus bath (masks, see fock.py),
used by the spectra checks. H conserves the number of core and of valence electrons.
"""
import numpy as np

from vm import fock, gen


class CoreSystem:
    def sig(self):
        return (self.n, tuple(self.core), sorted(self.h.items(), key=repr), repr(self.restr), repr(self.t_in))

    def describe(self):
        return dict(n=self.n, core=len(self.core), n_core=self.n_core, n_val=self.n_val, processes=len(self.h),
                    t_in=len(self.t_in), t_out=len(self.t_out), restrictions=None if self.restr is None else [(sorted(k), v) for k, v in self.restr.items()])

    def ground_masks(self):
        import itertools

        out = []
        for c in itertools.combinations(self.core, self.n_core):
            for v in itertools.combinations(self.val, self.n_val):
                m = fock.mask_of(c) | fock.mask_of(v)
                if fock.allowed(m, self.rm):
                    out.append(m)
        return sorted(out)

    def states(self, ctx, k, kind=None):
        """k initial states with energies: eigenstates in the restricted space (or random superpositions)."""
        masks = self.ground_masks()
        h = fock.matrix(self.fop, masks, self.rm)
        w, v = np.linalg.eigh(h)
        es, psis = [], []
        kind = kind or ctx.pick(["eigen", "eigen", "eigen", "random"])
        picks = list(range(min(k, len(masks))))
        if ctx.chance(0.3) and len(masks) > k:
            picks = sorted(ctx.rng.sample(range(len(masks)), k))
        for i in picks:
            if kind == "eigen":
                psi = {m: v[a, i] for a, m in enumerate(masks) if abs(v[a, i]) > 1e-9}
                es.append(float(w[i]))
            else:
                psi = {m: ctx.coef("complex") for m in ctx.rng.sample(masks, min(len(masks), ctx.int(1, 4)))}
                es.append(ctx.rng.uniform(-2, 2))
            psis.append(gen.normalised(psi))
        return es, psis


def random_core_system(ctx, n_core_max=4, n_val_max=6, n_ops=None, conserving=True, complex_ok=True, big=False):
    s = CoreSystem()
    nc, nv = (ctx.int(1, n_core_max), ctx.int(2, n_val_max)) if not big else ctx.pick([(4, 8), (6, 7), (6, 8), (3, 9), (6, 9)])
    extra = ctx.pick([0, 0, 0, 1, 3])  # unused orbitals change indices and widths
    s.n = n = nc + nv + extra
    orbs = list(range(n))
    if ctx.chance(0.5):
        ctx.rng.shuffle(orbs)
    s.core, s.val = sorted(orbs[:nc]), sorted(orbs[nc:nc + nv])
    s.n_core = nc if ctx.chance(0.8) else ctx.int(max(0, nc - 1), nc)
    s.n_val = ctx.int(0, nv - 1) if ctx.chance(0.3) else ctx.int(1, nv - 1)
    if big:
        s.n_core, s.n_val = nc, ctx.int(nv // 2 - 1, nv // 2 + 1)
    kind = ctx.pick([None, "float", "complex"]) if complex_ok else "float"
    h = gen.hermitian(ctx, n, ctx.int(2, 8) if not big else 2 * nv, ctx.int(0, 6), s.val, kind)
    for i in s.core:
        h[((i, "c"), (i, "a"))] = ctx.rng.uniform(-3, -1)
    if nc > 1 and ctx.chance(0.5):
        i, j = ctx.rng.sample(s.core, 2)
        v = ctx.coef(kind)
        h[((i, "c"), (j, "a"))] = v
        h[((j, "c"), (i, "a"))] = np.conj(v)
    for _ in range(ctx.int(0, 4)):  # core-valence interaction, Hermitian
        c, v = ctx.pick(s.core), ctx.pick(s.val)
        h[((c, "c"), (v, "c"), (v, "a"), (c, "a"))] = ctx.rng.uniform(-2, 2)
    for _ in range(ctx.int(0, 2)):  # core-valence exchange-like scattering
        c1, c2 = ctx.pick(s.core), ctx.pick(s.core)
        v1, v2 = ctx.pick(s.val), ctx.pick(s.val)
        p = ((c1, "c"), (v1, "c"), (v2, "a"), (c2, "a"))
        q = ((c2, "c"), (v2, "c"), (v1, "a"), (c1, "a"))
        if p == q or p in h or q in h:
            continue
        v = ctx.coef(kind)
        h[p], h[q] = v, np.conj(v)
    items = list(h.items())
    ctx.rng.shuffle(items)
    s.h = dict(items)
    s.fop = fock.Op(s.h)

    def dip(k):
        t = {}
        for _ in range(k):
            t[((ctx.pick(s.val), "c"), (ctx.pick(s.core), "a"))] = ctx.coef(kind)
        return t

    s.t_in = [dip(ctx.int(1, 5)) for _ in range(n_ops or ctx.int(1, 3))]
    s.t_out = [fock.dagger(dip(ctx.int(1, 5))) for _ in range(n_ops or ctx.int(1, 3))]
    # restrictions as in the scripts: on (parts of) the valence orbitals
    s.restr = None
    r = ctx.rng.random()
    if r < 0.25:
        s.restr = {frozenset(s.val): (max(0, s.n_val - 1), s.n_val + 1)}
    elif r < 0.6:
        k = ctx.int(1, nv - 1)
        a, b = s.val[:k], s.val[k:]
        na = ctx.int(max(0, s.n_val - len(b)), min(k, s.n_val))
        s.restr = {frozenset(a): (na - ctx.pick([0, 1, 1]), na + ctx.pick([0, 1, 1, 2]))}
        if ctx.chance(0.5):
            nb = s.n_val - na
            s.restr[frozenset(b)] = (nb - ctx.pick([0, 1, 2]), nb + ctx.pick([1, 2]))
        if ctx.chance(0.2):
            s.restr[frozenset()] = (0, ctx.int(0, 3))
        if ctx.chance(0.2):
            s.restr[frozenset(s.core)] = (s.n_core - 1, s.n_core)
    s.rm = fock.restr_masks(s.restr)
    if not s.ground_masks():
        s.restr, s.rm = None, None
    return s
