"""Parent side of monitored MPI jobs: launches real mpiexec runs and checks the event logs of all ranks."""
import collections
import fcntl
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vm.core import Inconclusive, Violation, brief, die_with_parent

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STALL = 30.0  # seconds without any communication event while every unfinished rank is blocked in a call
LIMIT = 240.0  # wall-clock limit: inconclusive
NOT_COLLECTIVE = {"send", "recv", "Send", "Recv", "isend", "irecv", "Isend", "Irecv", "ssend", "Ssend", "sendrecv", "Sendrecv", "bsend", "issend", "probe"}


def environment():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "PRTE_"))}
    env.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl_vader_single_copy_mechanism="none",
               OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
               OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1", OMPI_MCA_plm="isolated", OMPI_MCA_plm_rsh_agent="/bin/false")
    return env


def command(nranks, hashseeds, argv):
    cmd = ["mpiexec", "--oversubscribe", "--bind-to", "none"]
    for r in range(nranks):
        if r:
            cmd.append(":")
        cmd += ["-n", "1", "env", "PYTHONHASHSEED=%d" % hashseeds[r]] + argv
    return cmd


class Slot:
    """At most two MPI jobs of one check run at the same time (the processes poll actively)."""

    def __enter__(self):
        self.f = None
        d = os.environ.get("VM_LOCKS")
        if not d:
            return
        while True:
            for i in range(2):
                f = open(os.path.join(d, "mpi_slot_%d" % i), "w")
                try:
                    fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                    self.f = f
                    return
                except OSError:
                    f.close()
            time.sleep(0.05)

    def __exit__(self, *a):
        if self.f:
            self.f.close()


def read_log(path):
    out = []
    try:
        for line in open(path):
            try:
                out.append(json.loads(line))
            except ValueError:
                pass
    except OSError:
        pass
    return out


def state(log):
    if not log:
        return "starting"
    t = log[-1]["t"]
    return {"enter": "blocked", "finished": "done", "saved": "done"}.get(t, "running")


def run(ctx, tasks, nranks, delay=None, limit=LIMIT):
    """Runs the tasks; returns (list over tasks of list over ranks of results). An undecided run is repeated once."""
    try:
        return run_once(ctx, tasks, nranks, delay, limit)
    except Inconclusive:
        ctx.event("mpi_jobs_repeated")
        return run_once(ctx, tasks, nranks, delay, limit)


def run_once(ctx, tasks, nranks, delay=None, limit=LIMIT):
    base = os.environ.get("VM_SCRATCH") or tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix="mpi_", dir=base)
    hashseeds = [ctx.int(1, 4294967295) for _ in range(nranks)]
    try:
        with open(os.path.join(d, "spec.pickle"), "wb") as f:
            pickle.dump(dict(tasks=tasks, delay=delay, delay_seed=ctx.int(0, 10**9)), f)
        argv = [sys.executable, "-B", os.path.join(HERE, "vm", "mpi_child.py"), d]
        with Slot():
            with open(os.path.join(d, "stderr"), "w") as err:
                p = subprocess.Popen(command(nranks, hashseeds, argv), env=environment(), cwd=d, stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True, preexec_fn=die_with_parent)
            watch(ctx, p, d, nranks, tasks, limit)
            kill(p)
        logs = [read_log(os.path.join(d, "log.%d" % r)) for r in range(nranks)]
        what = dict(ranks=nranks, tasks=[t[0] for t in tasks])
        excs = [l[-1]["tb"] for l in logs if l and l[-1]["t"] == "exception"]
        if excs:
            raise Violation("a rank raised an exception", dict(what, trace=excs[0]))
        if p.returncode != 0 or not all(l and l[-1]["t"] == "saved" for l in logs):
            tail = open(os.path.join(d, "stderr"), errors="replace").read()[-1500:]
            if any(l and l[-1]["t"] not in ("saved", "start") for l in logs) and ("MPI_ERR_TRUNCATE" in tail or "message truncated" in tail.lower()):
                raise Violation("ranks exchange messages that do not match", dict(what, err=tail))
            if all(l for l in logs) and any(w in tail for w in ("Segmentation", "exited on signal 11")):
                raise Violation("a rank crashed", dict(what, err=tail))
            raise Inconclusive("MPI job ended with %s: %s" % (p.returncode, tail))
        check_logs(ctx, logs, what)
        res = [pickle.load(open(os.path.join(d, "res.%d" % r), "rb")) for r in range(nranks)]
        ctx.event("mpi_jobs")
        ctx.event("mpi_ranks", nranks)
        ctx.event("mpi_job_with_%d_ranks" % nranks)
        return [[res[r][i] for r in range(nranks)] for i in range(len(tasks))]
    finally:
        kill(locals().get("p"))
        shutil.rmtree(d, ignore_errors=True)


def kill(p):
    if p is None:
        return
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(timeout=20)
    except subprocess.TimeoutExpired:
        pass


def watch(ctx, p, d, nranks, tasks, limit=LIMIT):
    t0 = last = time.time()
    sizes = None
    while p.poll() is None:
        time.sleep(0.02)
        now = time.time()
        s = [os.path.getsize(f) if os.path.exists(f) else -1 for f in (os.path.join(d, "log.%d" % r) for r in range(nranks))]
        if s != sizes:
            sizes, last = s, now
        if now - last > STALL:
            logs = [read_log(os.path.join(d, "log.%d" % r)) for r in range(nranks)]
            st = [state(l) for l in logs]
            if all(x in ("blocked", "done") for x in st) and "blocked" in st:
                raise Violation("the run is deadlocked: every unfinished process waits for a message",
                                dict(ranks=nranks, tasks=[t[0] for t in tasks], waiting_in=[brief(l[-1]) for l in logs], last_task=[[e for e in l if e["t"] == "task"][-1:] for l in logs]))
            if now - last > 4 * STALL:
                raise Inconclusive("MPI job made no progress")
        if now - t0 > limit:
            raise Inconclusive("MPI job exceeded %d s" % limit)


def check_logs(ctx, logs, what):
    """Same sequence of collective operations on all ranks; point-to-point messages are matched."""
    per = []
    sends, recvs = collections.Counter(), collections.Counter()
    for r, l in enumerate(logs):
        seq, task, depth = [], None, 0
        for e in l:
            if e["t"] == "task":
                task = (e["i"], e["name"])
            elif e["t"] == "enter":
                if e["op"] in NOT_COLLECTIVE:
                    if e["op"].lower().endswith("send"):
                        sends[(r, e["peer"])] += 1
                    elif e["op"].lower().endswith("recv"):
                        recvs[(e["peer"], r)] += 1
                else:
                    seq.append((task, e["op"], e.get("root"), json.dumps(e.get("buf"))))
        per.append(seq)
        ctx.event("communication_calls", len(seq))
    for r in range(1, len(per)):
        if per[r] != per[0]:
            i = next((i for i, (x, y) in enumerate(zip(per[0], per[r])) if x != y), min(len(per[0]), len(per[r])))
            raise Violation("ranks take part in different sequences of collective operations",
                            dict(what, rank_a=0, rank_b=r, position=i, a=brief(per[0][i:i + 3]), b=brief(per[r][i:i + 3])))
    ctx.event("collective_sequences_compared", len(per) - 1)
    if None not in {k[1] for k in sends} | {k[0] for k in recvs}:
        ctx.event("messages_matched", sum(sends.values()))
        if sends != recvs:
            raise Violation("sent and received messages do not match", dict(what, sends=brief(dict(sends)), recvs=brief(dict(recvs))))
    order = []
    ctx.event("global_event_orders", 1)


def quiet_np(x):
    return x
