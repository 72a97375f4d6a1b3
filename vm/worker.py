"""One shard of a check: runs its cases and writes a JSON result."""
import faulthandler
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vm import boot, core  # noqa: E402

REPO = os.environ.get("VM_REPO", "/repo")


def start_coverage():
    """Line coverage of the code under test with negligible cost (each line reported once)."""
    hit = {}
    prefix = os.path.join(REPO, "impurityModel") + os.sep
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    mon.use_tool_id(tool, "vm")

    def on_line(code, line):
        fn = code.co_filename
        if fn.startswith(prefix) and os.sep + "test" + os.sep not in fn:
            hit.setdefault(fn[len(prefix):], set()).add(line)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)
    return hit


def known_ids(prop):
    ids = {}
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(None, 2)[2]
                fid, what = rest.split(None, 1)
                ids[fid.replace("id=", "")] = what.strip()
    except FileNotFoundError:
        pass
    return ids


class CpuLimit(BaseException):
    pass


def main():
    spec = json.loads(sys.argv[1])
    faulthandler.enable()
    warnings.simplefilter("ignore")
    prop, shard, nshards = spec["check"], spec["shard"], spec["nshards"]
    out_path = spec["out"]
    # The code under test prints a lot.
    sys.stdout.flush()
    real_out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    core.die_with_parent()
    t0 = time.time()
    res = dict(shard=shard, cases={}, skipped={}, violations=[], inconclusive=[], known={}, done=False,
               truncated=False, hashseed=os.environ.get("PYTHONHASHSEED"))
    counters, sigs, samples = core.new_counters(), set(), {}
    known = core.new_counters()
    kids = known_ids(prop)
    boot.fresh()
    hit = start_coverage()

    def save():
        res["counters"] = dict(counters)
        res["sigs"] = sorted(sigs)
        res["samples"] = samples
        res["known"] = dict(known)
        res["wall"] = time.time() - t0
        res["lines"] = {k: sorted(v) for k, v in hit.items()}
        tmp = out_path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.replace(tmp, out_path)

    try:
        mod = importlib.import_module("checks." + prop.lower())
    except Exception as e:
        tb = traceback.format_exc()
        # The code under test does not even import.
        if isinstance(e, SyntaxError) or REPO in tb:
            res["violations"].append(dict(workload="import", index=0, msg="import failed: %r" % e, info={"trace": tb[-2500:]}))
        else:
            res["inconclusive"].append("import: " + tb[-2000:])
        save()
        return

    def on_prof(signum, frame):
        raise CpuLimit()

    signal.signal(signal.SIGPROF, on_prof)

    # Round robin over the workloads, such that truncation does not starve any of them.
    # Cases are dealt round robin to the shards, offset per workload.
    todo = []
    for wi, w in enumerate(mod.WORKLOADS):
        n = w.quick if spec["tier"] == "quick" else w.thorough
        mine = [i for i in range(n) if (i + wi) % nshards == shard]
        todo.append((w, mine))
        res["cases"][w.name] = 0
    if spec.get("replay"):
        rp = spec["replay"]
        todo = [(w, [rp["index"]]) for w in mod.WORKLOADS if w.name == rp["workload"]]
    if os.environ.get("VM_ONLY"):  # development: one workload
        todo = [(w, mine) for w, mine in todo if w.name == os.environ["VM_ONLY"]]
    order = []
    for w, mine in todo:
        for j, i in enumerate(mine):
            order.append(((j + 0.5) / len(mine), 0 if w.first else 1 if j == 0 else 2, w, i))
    order.sort(key=lambda x: (x[1], x[0]))
    for frac, first, w, i in order:
        if time.time() - t0 > spec["cap"]:
            res["truncated"] = True
            break
        ctx = core.Ctx(prop, w.name, i, spec["seed"], spec["tier"], counters, sigs, samples, known, kids)
        signal.setitimer(signal.ITIMER_PROF, w.cpu)
        tc, tw = time.process_time(), time.time()
        try:
            w.fn(ctx)
            res["cases"][w.name] = res["cases"].get(w.name, 0) + 1
        except core.Skip:
            res["skipped"][w.name] = res["skipped"].get(w.name, 0) + 1
        except core.Inconclusive as e:
            res["inconclusive"].append("%s[%d]: %s" % (w.name, i, e))
        except MemoryError:
            res["inconclusive"].append("%s[%d]: out of memory" % (w.name, i))
        except CpuLimit:
            res["violations"].append(dict(workload=w.name, index=i, msg="no result within %d s of CPU time (bounded progress)" % w.cpu, info={"case": core.brief(ctx.desc)}))
        except core.Violation as e:
            res["violations"].append(dict(workload=w.name, index=i, msg=e.msg, info=dict(e.info, case=core.brief(ctx.desc, 1500))))
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            tb = traceback.format_exc()
            if isinstance(e, AttributeError) and "module 'impurityModel" in str(e):
                res["inconclusive"].append("%s[%d]: interface missing: %s" % (w.name, i, e))
            else:
                res["violations"].append(dict(workload=w.name, index=i, msg="unexpected %s: %s" % (type(e).__name__, core.brief(str(e), 300)), info={"trace": tb[-3000:], "case": core.brief(ctx.desc, 1500)}))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        dt = time.process_time() - tc
        wl = res.setdefault("wall_by_workload", {})
        wl[w.name] = round(wl.get(w.name, 0) + time.time() - tw, 3)
        mx = res.setdefault("max_cpu", {})
        mx[w.name] = max(mx.get(w.name, 0), round(dt, 2))
        if res["violations"]:
            save()
            if len(res["violations"]) >= 2:
                break
        if len(res["inconclusive"]) > 5:
            break
    res["done"] = True
    save()
    os.dup2(real_out, 1)


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
