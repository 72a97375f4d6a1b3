"""
One MPI rank of a monitored job: python mpi_child.py DIR

Replaces mpi4py's COMM_WORLD with a logging (and optionally delaying) proxy before the code under
test is imported, runs the tasks and stores this rank's results.
"""
import json
import os
import pickle
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vm import boot  # noqa: E402
from vm.core import die_with_parent  # noqa: E402

die_with_parent()
DIR = sys.argv[1]
open(os.path.join(DIR, "pid.%d" % os.getpid()), "w").close()
from mpi4py import MPI  # noqa: E402

REAL = MPI.COMM_WORLD
RANK, SIZE = REAL.rank, REAL.size
SPEC = pickle.load(open(os.path.join(DIR, "spec.pickle"), "rb"))
LOG = open(os.path.join(DIR, "log.%d" % RANK), "w", buffering=1)
RNG = random.Random(SPEC["delay_seed"] * 1009 + RANK)
DELAY = SPEC["delay"]
ROOTED = {"bcast", "Bcast", "reduce", "Reduce", "gather", "Gather", "scatter", "Scatter", "Gatherv", "Scatterv"}
COLLECTIVE = ROOTED | {"allreduce", "Allreduce", "allgather", "Allgather", "Allgatherv", "Barrier", "barrier", "alltoall", "Alltoall", "Alltoallv", "Ibcast", "Ibarrier", "Iallreduce", "Ireduce", "scan", "exscan", "Reduce_scatter"}
P2P = {"send", "recv", "Send", "Recv", "isend", "irecv", "Isend", "Irecv", "ssend", "Ssend", "sendrecv", "Sendrecv", "bsend", "issend", "probe"}


def log(**kw):
    kw["T"] = round(time.time(), 4)
    LOG.write(json.dumps(kw) + "\n")


def shape(x):
    if isinstance(x, (list, tuple)) and x:
        x = x[0]
    return [str(getattr(x, "dtype", type(x).__name__)), list(getattr(x, "shape", []))]


def pause():
    if DELAY and RNG.random() < DELAY[0]:
        time.sleep(RNG.random() * DELAY[1])


class Proxy:
    """Stands for COMM_WORLD."""

    def __init__(self, comm):
        self.__dict__["_c"] = comm

    def __getattr__(self, name):
        x = getattr(self._c, name)
        if name not in COLLECTIVE and name not in P2P:
            return x

        def call(*a, **k):
            info = dict(op=name)
            if name in ROOTED:
                root = k.get("root")
                if root is None:
                    pos = {"bcast": 1, "Bcast": 1, "gather": 1, "scatter": 1, "reduce": 2, "Reduce": 3, "Gather": 2, "Scatter": 2, "Gatherv": 2, "Scatterv": 2}[name]
                    root = a[pos] if len(a) > pos else 0
                info["root"] = root
            if name in ("Bcast", "Reduce", "Allreduce", "Allgather", "Gather", "Scatter") and a:
                info["buf"] = shape(a[0])
            if name in ("reduce", "Reduce", "allreduce", "Allreduce"):
                o = k.get("op")
                if o is not None:
                    info["red"] = "sum" if o == MPI.SUM else "other"
            if name in P2P:
                info["peer"] = k.get("dest", k.get("source", a[1] if name.lower().endswith("send") and len(a) > 1 else None))
                info["tag"] = k.get("tag", None)
            pause()
            log(t="enter", **info)
            r = x(*a, **k)
            log(t="exit", op=name)
            pause()
            return r

        return call

    def __setattr__(self, k, v):
        setattr(self._c, k, v)


def main():
    boot.fresh()
    MPI.COMM_WORLD = Proxy(REAL)
    os.dup2(os.open(os.path.join(DIR, "out.%d" % RANK), os.O_WRONLY | os.O_CREAT), 1)
    results = []
    log(t="start")
    try:
        from vm import mpi_tasks

        for i, (name, kw) in enumerate(SPEC["tasks"]):
            log(t="task", i=i, name=name)
            pause()
            results.append(getattr(mpi_tasks, name)(RANK, SIZE, DIR, **kw))
        log(t="finished")
    except BaseException:
        tb = traceback.format_exc()
        log(t="exception", tb=tb[-3000:])
        with open(os.path.join(DIR, "exc.%d" % RANK), "w") as f:
            f.write(tb)
        LOG.flush()
        sys.stdout.flush()
        REAL.Abort(3)
    with open(os.path.join(DIR, "res.%d.tmp" % RANK), "wb") as f:
        pickle.dump(results, f)
    os.replace(os.path.join(DIR, "res.%d.tmp" % RANK), os.path.join(DIR, "res.%d" % RANK))
    log(t="saved")


main()
