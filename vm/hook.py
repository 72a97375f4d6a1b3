"""Replaces functions of the code under test by monitored versions, wherever a module refers to them."""
import contextlib
import sys


@contextlib.contextmanager
def hooked(name, make):
    """make(real) -> monitored function. All modules of the package that hold the same object are patched."""
    from impurityModel.ed import finite, spectra  # noqa

    mods = [m for k, m in list(sys.modules.items()) if k.startswith("impurityModel.ed") and m is not None]
    reals = []
    for m in mods:
        f = getattr(m, name, None)
        if f is not None and all(f is not r for r in reals):
            reals.append(f)
    old = []
    try:
        for f in reals:
            g = make(f)
            for m in mods:
                if getattr(m, name, None) is f:
                    old.append((m, f))
                    setattr(m, name, g)
        yield bool(old)
    finally:
        for m, f in old:
            setattr(m, name, f)


def arguments(real, args, kwargs, need):
    """The named arguments of a call of real, or None if it has no such arguments."""
    import inspect

    try:
        b = inspect.signature(real).bind(*args, **kwargs)
        b.apply_defaults()
        return [b.arguments[x] for x in need]
    except (TypeError, ValueError, KeyError):
        return None
