"""setup_cmd: nothing is built (the repository is pure Python); verifies the tool chain and self-tests the oracle."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
for mod in ("numpy", "scipy", "sympy", "bitarray", "mpi4py", "h5py", "matplotlib"):
    __import__(mod)
from vm import fock  # noqa: E402

# the reference model itself: anticommutators on 6 orbitals
for mask in range(64):
    for i in range(6):
        for j in range(6):
            for a in "ca":
                for b in "ca":
                    r = fock.apply_op({((i, a), (j, b)): 1, ((j, b), (i, a)): 1}, {mask: 1})
                    r = {k: v for k, v in r.items() if v}
                    assert r == ({mask: 1} if i == j and a != b else {}), (mask, i, j, a, b)
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("setup ok")
