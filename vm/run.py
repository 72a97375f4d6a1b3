"""
Runs one check:  python3 vm/run.py C05 [--tier quick|thorough] [--replay FILE] [--shards N]

Exit 0: held on everything explored. Exit 1 + "VIOLATION property=.. replay=..": broken.
Exit 2: inconclusive (nothing or too little was observed, a watchdog fired).
"""
import argparse
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VM_REPO", "/repo")
PY = os.environ.get("VM_PYTHON", "/opt/venv/bin/python")
CAP = {"quick": 200.0, "thorough": 600.0}  # generation stops after this many seconds
HARD = {"quick": 780.0, "thorough": 860.0}  # wall-clock watchdog: inconclusive


def environment(scratch, hashseed):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "PYTHON"))}
    env.update(
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        HOME=scratch, TMPDIR=scratch,
        PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED=str(hashseed), MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_ess_singleton_isolated="1",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        VM_REPO=REPO, VM_SCRATCH=scratch, VM_LOCKS=os.path.dirname(scratch),
    )
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    prop = a.check
    t0 = time.time()
    nshards = a.shards or 8
    replay = None
    if a.replay:
        replay = json.load(open(a.replay))
        a.tier, a.seed, nshards = replay["tier"], replay["seed"], 1
    scratch = tempfile.mkdtemp(prefix="vm_%s_" % prop)
    procs = []
    status = 2
    try:
        for s in range(nshards):
            d = os.path.join(scratch, "s%d" % s)
            os.makedirs(os.path.join(d, "mpl"))
            spec = dict(check=prop, shard=s, nshards=nshards, tier=a.tier, seed=a.seed, cap=CAP[a.tier],
                        out=os.path.join(d, "result.json"), replay=replay)
            hs = (a.seed * 1000003 + s * 7919 + 17) % 4294967295
            if replay:
                hs = replay.get("hashseed", hs)
            p = subprocess.Popen([PY, os.path.join(HERE, "vm", "worker.py"), json.dumps(spec)], env=environment(d, hs),
                                 cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                 stderr=open(os.path.join(d, "stderr"), "w"), start_new_session=True)
            procs.append((p, d))
        first_violation = None
        timed_out = False
        while any(p.poll() is None for p, _ in procs):
            time.sleep(0.05)
            now = time.time()
            if first_violation is None and any(has_violation(d) for _, d in procs):
                first_violation = now
            if first_violation is not None and now - first_violation > 3:
                break
            if now - t0 > HARD[a.tier]:
                timed_out = True
                break
        for p, _ in procs:
            kill_group(p)
        results, crashes = [], []
        for s, (p, d) in enumerate(procs):
            try:
                results.append(json.load(open(os.path.join(d, "result.json"))))
            except (OSError, ValueError):
                if first_violation is None:
                    err = open(os.path.join(d, "stderr"), errors="replace").read()[-1500:]
                    crashes.append((s, p.returncode, err))
        status = report(prop, a, results, crashes, timed_out, first_violation is not None, t0, replay)
    finally:
        for p, _ in procs:
            kill_group(p)
        kill_leftovers(scratch)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(status)


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(timeout=10)
    except subprocess.TimeoutExpired:
        pass


def kill_leftovers(scratch):
    """Ends MPI processes of this check which are still alive (every rank records its pid in our scratch directory)."""
    for f in glob.glob(os.path.join(scratch, "s*", "mpi_*", "pid.*")):
        try:
            os.kill(int(f.rsplit(".", 1)[1]), signal.SIGKILL)
        except (OSError, ValueError):
            pass


def has_violation(d):
    try:
        return bool(json.load(open(os.path.join(d, "result.json")))["violations"])
    except (OSError, ValueError):
        return False


def report(prop, a, results, crashes, timed_out, early, t0, replay):
    sys.path.insert(0, HERE)
    from vm import meta

    m = meta.META[prop]
    cases, skipped, counters, sigs, samples, lines = {}, {}, {}, set(), {}, {}
    violations, inconclusive, known, max_cpu = [], [], {}, {}
    for r in results:
        for k, v in r["cases"].items():
            cases[k] = cases.get(k, 0) + v
        for k, v in r["skipped"].items():
            skipped[k] = skipped.get(k, 0) + v
        for k, v in r.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r.get("max_cpu", {}).items():
            max_cpu[k] = max(max_cpu.get(k, 0), v)
        sigs.update(r.get("sigs", []))
        for k, v in r.get("samples", {}).items():
            if len(samples.setdefault(k, [])) < 1:
                samples[k] += v[:1]
        for k, v in r.get("lines", {}).items():
            lines.setdefault(k, set()).update(v)
        for v in r["violations"]:
            violations.append(dict(v, hashseed=r["hashseed"], shard=r["shard"]))
        inconclusive += r["inconclusive"]
        for k, v in r.get("known", {}).items():
            known[k] = known.get(k, 0) + v
    vlines = []
    if violations:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(violations[:4]):
            path = os.path.join(rd, "%s-%s-%s-%d.json" % (prop, a.tier, a.seed, i))
            with open(path, "w") as f:
                json.dump(dict(v, property=prop, tier=a.tier, seed=a.seed,
                               how="python3 vm/run.py %s --replay %s" % (prop, path)), f, indent=1)
            print("%s: workload %s case %d: %s" % (prop, v["workload"], v["index"], v["msg"]))
            for k, x in list(v["info"].items()):
                print("    %s: %s" % (k, str(x)[-1200:]))
            vlines.append("VIOLATION property=%s replay=%s" % (prop, path))
    missing = []
    if not replay:
        for w, n in sorted(cases.items()):
            if n == 0 and not violations:
                missing.append("workload %s: no case completed" % w)
        for e in m.get("events", ()):
            if not counters.get(e):
                missing.append("monitor event %s was never observed" % e)
    for s, rc, err in crashes:
        inconclusive.append("shard %d ended with %s: %s" % (s, rc, err))
    if timed_out:
        inconclusive.append("wall-clock watchdog")
    from vm import worker

    kids = worker.known_ids(prop)
    if not replay:
        for fid, what in kids.items():
            if known.get(fid):
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
    n_eval = sum(cases.values())
    total_lines = {}
    ev = dict(
        property=prop, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=n_eval, distinct_nontrivial=len(sigs), rule=m["rule"],
            samples=[{"workload": k, "case": x} for k, v in sorted(samples.items()) for x in v],
            cases_per_workload=cases, cases_outside_domain=skipped, monitor_events=counters,
            max_cpu_s_per_case=max_cpu, known_findings_observed=known,
            source_lines_executed={k: len(v) for k, v in sorted(lines.items())},
            shards=len(results), truncated=any(r["truncated"] for r in results), stopped_early=early,
        ),
        assumptions=m.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    if not replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if vlines:
        for v in vlines[:1] if not a.verbose else vlines:
            print(v)
        return 1
    if inconclusive or missing or (n_eval == 0):
        for x in (inconclusive + missing)[:10]:
            print("INCONCLUSIVE property=%s %s" % (prop, x))
        return 2
    print("%s held: %d cases (%d distinct non-trivial), %d oracle comparisons, %.1f s" % (
        prop, n_eval, len(sigs), counters.get("oracle_comparisons", 0), time.time() - t0))
    if a.verbose:
        for r in results:
            print(r["shard"], round(r["wall"], 1), r.get("wall_by_workload"))
        print(json.dumps(dict(cases=cases, skipped=skipped, max_cpu=max_cpu, counters=counters, trunc=ev["coverage"]["truncated"]), indent=0))
    return 0


if __name__ == "__main__":
    main()
