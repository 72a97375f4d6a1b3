"""
Case context, workloads and verdicts.

A check module (checks/cNN.py) defines WORKLOADS, a list of W(...). Each
workload is a function fn(ctx) that drives the real code of /repo with one
generated case and lets an oracle judge what was observed:

    ctx.check(cond, msg, **info)   the oracle; a false condition is a violation
    ctx.event(name, n)             counts what the monitor actually observed
    ctx.case(sig)                  signature of a non-trivial case (distinct ones are counted)

Everything random is derived from (VERIF_SEED, check, workload, index).
"""
import collections
import hashlib
import random

import numpy as np


def die_with_parent():
    """This process is ended when its parent ends (so that no MPI process outlives a check)."""
    try:
        import ctypes
        import signal

        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


class Violation(Exception):
    def __init__(self, msg, info=None):
        super().__init__(msg)
        self.msg = msg
        self.info = info or {}


class Inconclusive(Exception):
    """The case could not be decided (e.g. a watchdog fired). Never a violation."""


class Skip(Exception):
    """The generated case is outside the domain of the property."""


class W:
    """first: cases of this workload run before all others (MPI jobs need the cores for themselves)."""

    def __init__(self, name, fn, quick, thorough=None, cpu=100, first=False):
        self.first = first
        self.name, self.fn, self.quick = name, fn, quick
        self.thorough = 20 * quick if thorough is None else thorough
        self.cpu = cpu


def brief(x, n=400):
    try:
        s = repr(x)
    except Exception as e:  # pragma: no cover
        s = "<unprintable: %s>" % e
    return s if len(s) <= n else s[: n - 20] + "...(%d chars)" % len(s)


class Ctx:
    def __init__(self, check, workload, index, seed, tier, counters, sigs, samples, known, known_ids):
        self.check_id, self.workload, self.index, self.seed, self.tier = check, workload, index, seed, tier
        h = hashlib.sha256(("%s|%s|%s|%s" % (seed, check, workload, index)).encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        self.np = np.random.default_rng(int.from_bytes(h[8:16], "big"))
        self.counters, self.sigs, self.samples = counters, sigs, samples
        self.known_hits, self.known_ids = known, known_ids
        self.thorough = tier == "thorough"
        self.desc = None

    # ---- observation bookkeeping
    def event(self, name, n=1):
        self.counters[name] += n

    def case(self, *sig, sample=None):
        """Register the (non-trivial) case that is examined."""
        d = hashlib.sha256(repr(sig).encode()).hexdigest()[:16]
        self.desc = sample if sample is not None else sig
        new = d not in self.sigs
        self.sigs.add(d)
        key = self.workload
        lst = self.samples.setdefault(key, [])
        if new and len(lst) < 2:
            lst.append(brief(self.desc, 300))

    # ---- oracle
    def check(self, cond, msg, **info):
        self.counters["oracle_comparisons"] += 1
        if not cond:
            raise Violation(msg, {k: brief(v, 1500) for k, v in info.items()})

    def equal(self, got, want, msg, **info):
        self.check(got == want, msg, got=got, want=want, **info)

    def close(self, got, want, msg, rtol=1e-8, atol=1e-10, **info):
        """Elementwise closeness relative to the largest element."""
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.check(False, msg + " (shape)", got_shape=g.shape, want_shape=w.shape, **info)
        if g.size == 0:
            self.counters["oracle_comparisons"] += 1
            return
        scale = float(np.max(np.abs(w)))
        with np.errstate(all="ignore"):
            err = np.abs(g - w)
        bad = ~(err <= atol + rtol * scale)
        if np.any(bad):
            i = np.unravel_index(int(np.argmax(np.where(np.isnan(err), np.inf, err))), g.shape) if g.shape else ()
            self.check(False, msg, max_err=float(err[i]), at=tuple(int(k) for k in i), got=g[i], want=w[i],
                       tol=atol + rtol * scale, n_bad=int(bad.sum()), **info)
        self.counters["oracle_comparisons"] += 1

    def close_dict(self, got, want, msg, rtol=1e-9, atol=1e-11, cut2=0.0, **info):
        """States/operators: equal up to entries that vanish; entries with |v|^2 < cut2 may be missing."""
        self.counters["oracle_comparisons"] += 1
        scale = max([abs(v) for v in want.values()], default=0.0)
        tol = atol + rtol * scale
        lim = max(tol, cut2**0.5 * (1 + 1e-6))
        for k in set(got) | set(want):
            if k in got:
                d = abs(got[k] - want.get(k, 0))
                if not d <= tol:
                    raise Violation(msg, dict(key=brief(k), got=brief(got[k]), want=brief(want.get(k, 0)), tol=tol, n_got=len(got), n_want=len(want), **{a: brief(b, 1500) for a, b in info.items()}))
            elif abs(want[k]) > lim:
                raise Violation(msg + " (missing)", dict(key=brief(k), want=brief(want[k]), tol=lim, n_got=len(got), n_want=len(want), **{a: brief(b, 1500) for a, b in info.items()}))

    def raises(self, fn, msg, **info):
        """fn() must reject its input with an exception."""
        self.counters["oracle_comparisons"] += 1
        try:
            r = fn()
        except (Violation, Inconclusive, Skip):
            raise
        except Exception as e:
            self.event("rejections_observed")
            return e
        except SystemExit as e:
            self.event("rejections_observed")
            return e
        raise Violation(msg, dict(returned=brief(r), **{a: brief(b) for a, b in info.items()}))

    def known(self, fid, detail):
        """A failure that the committed known-findings file lists; anything else is a violation."""
        if fid not in self.known_ids:
            raise Violation("finding %s is not listed: %s" % (fid, detail), {})
        self.known_hits[fid] += 1
        self.event("known_finding_" + fid)

    # ---- random helpers
    def pick(self, seq):
        return self.rng.choice(list(seq))

    def chance(self, p):
        return self.rng.random() < p

    def int(self, lo, hi):
        return self.rng.randint(lo, hi)

    def size(self, lo, hi, small=None, p_small=0.5):
        """A size: mostly small, sometimes anything, sometimes next to a constant of the source code."""
        from . import consts

        r = self.rng.random()
        small = hi if small is None else min(small, hi)
        if r < p_small:
            return self.rng.randint(lo, small)
        if r < p_small + (1 - p_small) * 0.5:
            c = [k + d for k in consts.ints() for d in (-1, 0, 1) if lo <= k + d <= hi]
            c += [k + d for k in (8, 16, 24, 32, 40, 48, 56, 63, 64, 127, 128, 255, 256) for d in (-1, 0, 1) if lo <= k + d <= hi]
            if c:
                return self.rng.choice(c)
        return self.rng.randint(lo, hi)

    def coef(self, kind=None, lo=0.05, hi=3.0):
        """Non-zero coefficient with modulus in [lo, hi]."""
        kind = kind or self.rng.choice(("int", "float", "complex", "imag", "npc", "npf"))
        r = self.rng.uniform(lo, hi) * self.rng.choice((-1, 1))
        if kind == "int":
            return self.rng.choice((-1, 1)) * self.rng.randint(1, max(1, int(hi)))
        if kind == "float":
            return r
        if kind == "npf":
            return np.float64(r)
        if kind == "imag":
            return 1j * r
        z = abs(r) * complex(np.exp(1j * self.rng.uniform(0, 2 * np.pi)))
        return np.complex128(z) if kind == "npc" else z


def new_counters():
    return collections.Counter()
