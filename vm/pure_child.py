"""
Evaluates calls of the code under test in a fresh process and watches their side effects.
   python pure_child.py DIR    (reads DIR/spec.pickle, writes DIR/out.pickle)

Every call is made several times: the inputs are compared with a snapshot after each call, one of the results is
overwritten, and the later results must not notice. The normalised first results are returned.
"""
import contextlib
import copy
import importlib
import io
import os
import pickle
import sys
import traceback

import numpy as np


def canonical(x):
    """Comparable and picklable form, independent of the order of dictionaries and sets."""
    if hasattr(x, "toarray") and not isinstance(x, np.ndarray):
        return ("array", x.shape, np.asarray(x.toarray(), dtype=complex))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("object array", x.shape, [canonical(i) for i in x.ravel()])
        return ("array", x.shape, np.array(x))
    if isinstance(x, dict):
        return ("dict", sorted(((repr(k), canonical(v)) for k, v in x.items()), key=lambda t: t[0]))
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(repr(k) for k in x))
    if isinstance(x, (list, tuple)):
        return ("sequence", [canonical(i) for i in x])
    if isinstance(x, (bool, np.bool_)):
        return ("value", bool(x))
    if isinstance(x, (int, float, complex, np.number)):
        return ("number", complex(x))
    return ("value", repr(x))


def same(a, b, rtol=1e-9, atol=1e-11):
    if a[0] != b[0]:
        return False
    if a[0] == "number":
        x, y = a[1], b[1]
        return bool(x == y or abs(x - y) <= atol + rtol * max(abs(x), abs(y)) or (x != x and y != y))
    if a[0] == "array":
        if a[1] != b[1]:
            return False
        if a[2].dtype.kind not in "biufc" or b[2].dtype.kind not in "biufc":
            return bool(np.array_equal(a[2], b[2]))
        scale = max(float(np.max(np.abs(a[2]))), float(np.max(np.abs(b[2])))) if a[2].size else 0.0
        with np.errstate(all="ignore"):
            return bool(np.all((np.abs(a[2] - b[2]) <= atol + rtol * scale) | (a[2] == b[2])))
    if a[0] == "object array":
        return a[1] == b[1] and all(same(x, y, rtol, atol) for x, y in zip(a[2], b[2]))
    if a[0] == "dict":  # (entries which vanish may be present or not)
        d, e = dict(a[1]), dict(b[1])
        scale = max([abs(v[1]) for v in list(d.values()) + list(e.values()) if v[0] == "number"], default=0.0)
        for k in set(d) | set(e):
            if k not in d or k not in e:
                v = d.get(k) or e.get(k)
                if v[0] != "number" or abs(v[1]) > 10 * (atol + rtol * scale):
                    return False
            elif not same(d[k], e[k], rtol, max(atol, rtol * scale)):
                return False
        return True
    if a[0] == "sequence":
        return len(a[1]) == len(b[1]) and all(same(x, y, rtol, atol) for x, y in zip(a[1], b[1]))
    return a[1] == b[1]


def containers(x, out, depth=0):
    """All mutable objects inside of a result, with multiplicity."""
    if depth > 6:
        return
    if isinstance(x, (dict, list, set, bytearray)) or isinstance(x, np.ndarray):
        out.append(x)
    if isinstance(x, dict):
        for v in x.values():
            containers(v, out, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            containers(v, out, depth + 1)


def shared(x):
    out = []
    containers(x, out)
    ids = {}
    for o in out:
        if id(o) in ids:
            return "the same %s appears twice in the result" % type(o).__name__
        ids[id(o)] = o
    arrays = [o for o in out if isinstance(o, np.ndarray) and o.size]
    for i in range(min(len(arrays), 40)):
        for j in range(i):
            if np.shares_memory(arrays[i], arrays[j]):
                return "arrays of the result share their memory"
    return None


def scramble(x, depth=0):
    """Overwrites everything that can be overwritten."""
    if depth > 6:
        return
    if isinstance(x, (list, tuple)):
        for v in x:
            scramble(v, depth + 1)
    elif isinstance(x, dict):
        for v in x.values():
            scramble(v, depth + 1)
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "biufc" and x.size:
            x[...] = 77 if x.dtype.kind != "b" else True
    elif hasattr(x, "data") and hasattr(x, "toarray") and isinstance(x.data, np.ndarray):
        x.data[...] = 77
    elif isinstance(x, list):
        x.append("scrambled")
    elif isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (int, float, complex, np.number)):
                x[k] = 77
        x["scrambled"] = 77
    elif isinstance(x, set):
        x.add("scrambled")


def readonly(x):
    if isinstance(x, np.ndarray):
        x.setflags(write=False)
    elif isinstance(x, (list, tuple)):
        for v in x:
            readonly(v)
    elif isinstance(x, dict):
        for v in x.values():
            readonly(v)


def thaw(x):
    if isinstance(x, np.ndarray):
        if x.base is None:
            x.setflags(write=True)
    elif isinstance(x, (list, tuple)):
        for v in x:
            thaw(v)
    elif isinstance(x, dict):
        for v in x.values():
            thaw(v)


def evaluate(task):
    mod, name = task["f"].split(".")
    f = getattr(importlib.import_module("impurityModel.ed." + mod), name)
    inout, post = task.get("inout", ()), POST.get(task.get("post"), lambda r, a: r)
    trouble = []
    for path, content in (task.get("files") or {}).items():
        with open(path, "wb") as fh:
            fh.write(content)

    def once():
        args = copy.deepcopy(task["args"])
        readonly([x for i, x in enumerate(args) if i not in inout])
        before = [canonical(x) for x in args]
        with contextlib.redirect_stdout(io.StringIO()):
            r = f(*args)
        for i, x in enumerate(args):
            if i not in inout and not identical(before[i], canonical(x)):
                trouble.append("argument %d was modified" % i)
        seen = (r, [args[i] for i in inout])
        s = shared(r)
        if s:
            trouble.append(s)
        return seen, canonical(post(r, args)), args

    def arguments(args):
        return [canonical(x) for i, x in enumerate(args) if i not in inout]

    first, n1, a1 = once()
    second, n2, a2 = once()
    rtol, atol = task.get("tol", (1e-9, 1e-11))
    if not same(n1, n2, rtol, atol):
        trouble.append("a second call gives another result: %s / %s" % (repr(n1)[:300], repr(n2)[:300]))
    thaw(a1)
    before = arguments(a1)
    scramble(first[0])
    if not identical(("sequence", before), ("sequence", arguments(a1))):
        trouble.append("overwriting a result changes an argument of the call")
    for x in first[1]:
        scramble(x)
    if not same(canonical(POST.get(task.get("post"), lambda r, a: r)(second[0], a2)), n2, 0, 0):
        trouble.append("overwriting one result changes another one")
    third, n3, a3 = once()
    if not same(n2, n3, rtol, atol):
        trouble.append("overwriting a result changes later ones: %s / %s" % (repr(n2)[:300], repr(n3)[:300]))
    return n3 if not trouble else n1, trouble


def identical(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "array":
        return a[1] == b[1] and a[2].dtype == b[2].dtype and a[2].tobytes() == b[2].tobytes()
    if a[0] == "object array":
        return a[1] == b[1] and all(identical(x, y) for x, y in zip(a[2], b[2]))
    if a[0] == "dict":
        return len(a[1]) == len(b[1]) and all(k == q and identical(v, w) for (k, v), (q, w) in zip(a[1], b[1]))
    if a[0] == "sequence":
        return len(a[1]) == len(b[1]) and all(identical(x, y) for x, y in zip(a[1], b[1]))
    return repr(a[1]) == repr(b[1])


# ---- forms of results that do not depend on choices (order of a basis, phases of states)

def p_set(r, args):
    return sorted(repr(x) for x in r)


def p_matrix(r, args):
    h, index = r[:2]
    h = np.asarray(h.todense() if hasattr(h, "todense") else h)
    keys = sorted(index)
    o = [index[k] for k in keys]
    return [repr(k) for k in keys], h[np.ix_(o, o)]


def p_store(r, args):
    return p_set(r, args), args[1]


def p_matrix_store(r, args):
    return p_matrix(r, args), args[1]


def p_eigen(r, args):
    """Energies and projectors on complete groups of degenerate states."""
    es, psis = np.asarray(r[0], dtype=float), r[1]
    keys = sorted(set(args[2]))
    v = np.array([[p.get(k, 0) for k in keys] for p in psis], dtype=complex)
    out, i = [], 0
    while i < len(es):
        j = i
        while j + 1 < len(es) and es[j + 1] - es[j] < 1e-4:
            j += 1
        if j < len(es) - 1:  # (the last group may be incomplete)
            out.append(np.conj(v[i:j + 1]).T @ v[i:j + 1])
        i = j + 1
    return es, out


def p_krylov(r, args):
    return np.asarray(r[0])[:2], np.asarray(r[1])[:1]


def p_first(r, args):
    return args[0]


def p_op_result(r, args):
    return r, args[5] if len(args) > 5 else None


POST = dict(set=p_set, matrix=p_matrix, store=p_store, matrix_store=p_matrix_store, eigen=p_eigen, krylov=p_krylov, first=p_first, op_result=p_op_result)


def main(d):
    with open(os.path.join(d, "spec.pickle"), "rb") as f:
        tasks, order = pickle.load(f)
    os.chdir(d)
    out = {}
    for i in order:
        try:
            out[i] = evaluate(tasks[i])
        except AttributeError as e:
            if "has no attribute" in str(e) and "module" in str(e):
                out[i] = ("missing", str(e))
            else:
                out[i] = ("error", traceback.format_exc()[-1500:])
        except Exception:
            out[i] = ("error", traceback.format_exc()[-1500:])
    with open(os.path.join(d, "out.tmp"), "wb") as f:
        pickle.dump(out, f)
    os.replace(os.path.join(d, "out.tmp"), os.path.join(d, "out.pickle"))


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vm import boot

    boot.fresh()
    main(sys.argv[1])
