"""
Imports the third-party modules (with their compiled caches) and then makes sure that the code under
test is compiled from its current source.   python vm/boot.py -m MODULE ARGS...   runs a module that way.
"""
import os
import sys


def fresh():
    for m in ("numpy", "scipy.sparse.linalg", "sympy.physics.wigner", "h5py", "bitarray"):
        __import__(m)
    d = os.environ.get("VM_SCRATCH")
    if d:
        sys.pycache_prefix = os.path.join(d, "pyc")
        sys.dont_write_bytecode = True


if __name__ == "__main__":
    import runpy

    fresh()
    sys.path.pop(0)
    if sys.argv[1] == "-m":
        mod = sys.argv[2]
        sys.argv = sys.argv[2:]
        runpy.run_module(mod, run_name="__main__", alter_sys=True)
    else:
        sys.argv = sys.argv[1:]
        runpy.run_path(sys.argv[0], run_name="__main__")
