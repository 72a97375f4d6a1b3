"""C29: the documented example calculations run as shipped and show the known physics of NiO, CoO, FeO and MnO."""
import json
import os
import re
import stat
import subprocess
import sys
import tempfile

import numpy as np

from vm import atomic, fock, mpi, spec
from vm.consts import REPO
from vm.core import W
from checks import c13, c14, c20, c22, c28

# The launcher only records what it was asked to start.
LAUNCHER = """#!%s
import json, os, sys
open(os.environ["VM_LAUNCH_LOG"], "a").write(json.dumps([os.path.basename(sys.argv[0])] + sys.argv[1:]) + "\\n")
""" % sys.executable

# script, arguments, expected (bath states, valence bath states, ranks)
LAUNCHES = [("run_Ni_NiO_CF.sh", (), (10, 10, 1)), ("run_Co_CoO_CF.sh", (), (10, 10, 1)), ("run_Fe_FeO_CF.sh", (), (10, 10, 1)), ("run_Mn_MnO_CF.sh", (), (10, 10, 1)),
            ("run_Ni_NiO_Xbath.sh", (), (10, 10, 1)), ("run_Ni_NiO_Xbath.sh", ("20",), (20, 20, 1)), ("run_Ni_NiO_Xbath.sh", ("20", "3"), (20, 20, 3)),
            ("run_Ni_NiO_Xbath.sh", ("50", "2"), (50, 50, 2)), ("run_Ni_NiO_Xbath.sh", ("100",), (100, 100, 1)), ("run_Ni_NiO_Xbath.sh", ("300", "16"), (300, 300, 16)),
            ("run_Ni_NiO_50p10bath.sh", (), (60, 10, 1)), ("run_Ni_NiO_50p10bath.sh", ("4",), (60, 10, 4))]

# high-spin ground states: electrons, spin, degeneracies of the levels (with spin-orbit coupling), <L^2> of the free-ion term, number of states of the report
TERMS = dict(Ni=(8, 1.0, [3]), Co=(7, 1.5, [2, 4, 4, 2]), Fe=(6, 2.0, [3, 2, 3, 1, 3, 3]), Mn=(5, 2.5, [6]))


def launch(script, args, d):
    """Runs a script with a launcher that starts nothing; returns what should have been started."""
    tools = os.path.join(d, "bin")
    if not os.path.exists(tools):
        os.makedirs(tools)
        for name in ("mpirun", "mpiexec", "srun", "python", "python3"):
            f = os.path.join(tools, name)
            with open(f, "w") as fh:
                fh.write(LAUNCHER)
            os.chmod(f, os.stat(f).st_mode | stat.S_IXUSR)
    log = os.path.join(d, "launched")
    if os.path.exists(log):
        os.unlink(log)
    env = dict(os.environ, PATH=tools + os.pathsep + os.environ["PATH"], VM_LAUNCH_LOG=log)
    r = subprocess.run([os.path.join(REPO, "scripts", script), *args], cwd=d, env=env, capture_output=True, text=True, timeout=60, stdin=subprocess.DEVNULL)
    calls = [json.loads(x) for x in open(log)] if os.path.exists(log) else []
    return r, calls


def split(call):
    """(ranks, module, arguments) of a recorded call."""
    ranks, module, i = 1, None, 1
    while i < len(call):
        x = call[i]
        if x in ("-n", "-np", "--np") and module is None:
            ranks, i = int(call[i + 1]), i + 2
        elif x == "-m" and i + 1 < len(call):
            return ranks, call[i + 1], call[i + 2:]
        else:
            i += 1
    return ranks, module, []


def parse(argv):
    """Positional arguments and options of a command line."""
    pos, opt, now = [], {}, None
    for x in argv:
        if x.startswith("--"):
            now = x[2:]
            opt[now] = []
        elif now is None:
            pos.append(x)
        else:
            opt[now].append(float(x))
    return pos, opt


def options(opt):
    """All options of the programs, with the documented defaults."""
    o = dict(c22.DEFAULTS)
    for k, v in opt.items():
        if isinstance(c22.DEFAULTS[k], tuple):
            o[k] = tuple(int(y) for y in v) if k in ("nBaths", "nValBaths", "n0imps", "dnTols", "dnValBaths", "dnConBaths") else tuple(v)
        else:
            o[k] = int(v[0]) if k == "nPsiMax" else v[0]
    return o


def accepted(module, argv):
    """Options of the command line the program does not know (None: no answer)."""
    env = dict(os.environ, PYTHONPATH=REPO)
    r = subprocess.run([sys.executable, "-B", "-m", module] + argv + ["--vm-not-an-option"], cwd=tempfile.gettempdir(), env=env, capture_output=True, text=True, timeout=120)
    m = re.search(r"unrecognized arguments:(.*)", r.stderr)
    return r, m.group(1).split() if m else None


def w_scripts(ctx):
    script, args, (nb, nv, ranks) = LAUNCHES[ctx.index % len(LAUNCHES)]
    ctx.case(script, args, sample=dict(script=script, arguments=args))
    info = dict(script=script, arguments=args)
    with tempfile.TemporaryDirectory() as d:
        r, calls = launch(script, args, d)
        left = sorted(set(os.listdir(d)) - {"bin", "launched"})
    ctx.check(r.returncode == 0, "a script fails", got=r.returncode, stderr=r.stderr[-300:], **info)
    ctx.check(len(calls) == 1, "a script does not start exactly one calculation", got=calls, **info)
    ctx.check(not left, "a script leaves files behind before the calculation", got=left, **info)
    got_ranks, module, argv = split(calls[0])
    ctx.check(got_ranks == ranks, "number of MPI ranks", got=got_ranks, want=ranks, **info)
    ctx.check(module in ("impurityModel.ed.get_spectra", "impurityModel.ed.get_spectra_using_CF"), "the program that is started", got=module, **info)
    pos, opt = parse(argv)
    for f in pos:
        ctx.check(os.path.isfile(f) and os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep), "an input file does not exist", got=f, **info)
        ctx.event("input_files")
    ctx.check(len(pos) == 2, "number of input files", got=pos, **info)
    r, unknown = accepted(module, argv)
    ctx.check(unknown == ["--vm-not-an-option"], "the program rejects the command line of the script", got=unknown, stderr=r.stderr[-300:], **info)
    o = options(opt)
    ctx.check((o["nBaths"][1], o["nValBaths"][1]) == (nb, nv), "number of bath states", got=(o["nBaths"], o["nValBaths"]), want=(nb, nv), **info)
    el = script.split("_")[1]
    ctx.check(o["n0imps"] == (6, TERMS[el][0]), "nominal occupation", got=o["n0imps"], want=(6, TERMS[el][0]), **info)
    ctx.check(el + "3d" in os.path.basename(pos[1]), "radial orbital of another element", got=pos[1], **info)
    ctx.event("scripts_launched")


def w_documented(ctx):
    """The commands of the README exist; the shipped data are what their names say."""
    text = open(os.path.join(REPO, "README.md")).read()
    ctx.case("README", sample=dict(chars=len(text)))
    paths = set(re.findall(r"path/to/folder/impurityModel/(\S+?\.(?:sh|py))", text))
    for p in sorted(paths):
        f = os.path.join(REPO, p)
        ctx.check(os.path.isfile(f) and os.access(f, os.X_OK), "a documented command does not exist or is not executable", got=p)
        ctx.event("documented_commands")
    import importlib.util

    for m in sorted(set(re.findall(r"python3? -m (impurityModel\.[\w.]+)", text))):
        ctx.check(importlib.util.find_spec(m) is not None, "a documented module does not exist", got=m)
        ctx.event("documented_commands")
    for name in sorted(os.listdir(os.path.join(REPO, "radialOrbitals"))):
        r, R = np.loadtxt(os.path.join(REPO, "radialOrbitals", name)).T
        ctx.check(np.all(np.diff(r) >= 0), "radial mesh is not sorted", got=name)
        ctx.close(np.sum(0.5 * (R[1:] ** 2 * r[1:] ** 2 + R[:-1] ** 2 * r[:-1] ** 2) * np.diff(r)), 1.0, "normalisation of a radial orbital", rtol=0, atol=1e-3, file=name)
        ctx.event("radial_orbitals")
    from impurityModel.ed.get_spectra import read_pickled_file

    for name in sorted(os.listdir(os.path.join(REPO, "h0"))):
        m = re.match(r"h0_NiO_(\d+)(?:p(\d+))?bath\.pickle$", name)
        if not m:
            continue
        nv, nc = int(m.group(1)), int(m.group(2) or 0)
        h0 = read_pickled_file(os.path.join(REPO, "h0", name))
        orb = {x[0] for p in h0 for x in p}
        bath = sorted(x for x in orb if len(x) == 2)
        info = dict(file=name)
        ctx.check(bath == [(2, b) for b in range(nv + nc)], "bath states of a stored Hamiltonian", got=len(bath), want=nv + nc, **info)
        ctx.check(sorted(x for x in orb if len(x) == 3) == sorted(atomic.shell(2)), "impurity orbitals of a stored Hamiltonian", got=sorted(orb)[:12], **info)
        labels = atomic.shell(2) + bath
        h = atomic.matrix_of_op(h0, labels)
        ctx.check(np.max(np.abs(h - h.conj().T)) < 1e-8, "a stored Hamiltonian is not Hermitian", **info)
        # no spin polarisation: the hybridisation of the two spins is the same
        up, dn = [labels.index(x) for x in atomic.shell(2) if x[1] == 1], [labels.index(x) for x in atomic.shell(2) if x[1] == 0]
        for z in (-7.3 + 0.4j, -1.0 + 0.3j, 2.0 + 0.5j):
            g = np.linalg.inv(z * np.eye(len(h)) - h)
            ctx.check(np.max(np.abs(g[np.ix_(up, up)] - g[np.ix_(dn, dn)])) < 1e-5, "a stored Hamiltonian is spin polarised", z=z, **info)
        ctx.event("stored_hamiltonians")


def levels(e, tol=1.5e-3):
    """Degeneracies of the sorted energies e."""
    out = [1]
    for a, b in zip(e, e[1:]):
        if b - a > tol:
            out.append(1)
        else:
            out[-1] += 1
    return out


def example(script, args, extra=()):
    with tempfile.TemporaryDirectory() as d:
        r, calls = launch(script, args, d)
    assert r.returncode == 0 and len(calls) == 1, r.stderr
    _, module, argv = split(calls[0])
    return module, argv + list(extra)


def prepare(module, argv):
    pos, opt = parse(argv)
    o = options(opt)
    cf = module.endswith("_CF")
    masks, n = c22.basis(o)
    if cf:
        labels, m = c13.cf_matrix(dict(c13.NIO, **json.load(open(pos[0]))), False)
        h0 = atomic.op_of_matrix(labels, m)
    else:
        import pickle

        h0 = pickle.load(open(pos[0], "rb"))
    return pos, o, cf, masks, n, h0


def judge_ground(ctx, el, rows, info):
    """High-spin ground multiplet of the monoxide; rows of the printed table."""
    nd, spin, deg = TERMS[el]
    e = [r[1][0] for r in rows]
    k = sum(deg)
    ctx.check(len(rows) > k or el == "Mn" and len(rows) >= k, "number of states in the table", got=len(rows), want=k, **info)
    lv = levels(e[:k])
    ctx.check(lv == deg, "degeneracies of the ground multiplet", element=el, got=lv, want=deg, energies=e[:k + 1], **info)
    if len(e) > k:
        ctx.check(e[k] > 0.5 and e[k - 1] < 0.25, "the ground multiplet is not separated", element=el, energies=e[:k + 1], **info)
    for r in rows[:k]:
        v = [x[0] for x in r]
        ctx.check(nd < v[2] < nd + 0.35, "occupation of the 3d orbitals", element=el, got=v[2], want=(nd, nd + 0.35), **info)
        s2 = spin * (spin + 1)
        ctx.check(0.8 * s2 < v[10] < s2 + 0.02, "total spin of the ground multiplet", element=el, got=v[10], want=s2, **info)
    mean = np.mean([[x[0] for x in r] for r in rows[:k]], axis=0)
    # a complete multiplet is symmetric in spin and space
    ctx.check(abs(mean[7]) < 0.02 and abs(mean[8]) < 0.02, "magnetic moment of a complete multiplet", element=el, got=mean[7:9], **info)
    ctx.check(abs(mean[3] - mean[4]) < 0.01 and abs(mean[5] - mean[6]) < 0.01, "spin polarisation of a complete multiplet", element=el, got=mean[3:7], **info)
    eg, t2g = mean[3] + mean[4], mean[5] + mean[6]
    want = dict(Ni=(2, 6), Co=(2, 5), Fe=(2, 4), Mn=(2, 3))[el]
    ctx.check(want[0] - 0.05 < eg < want[0] + 0.4 and want[1] - 0.1 < t2g < want[1] + 0.25, "eg and t2g occupations", element=el, got=(eg, t2g), want=want, **info)
    ctx.event("ground_multiplets")
    ctx.event("ground_" + el)


def judge_edges(ctx, data, o, info):
    """L2,3 edges, isotropy, sum rules."""
    w, a = data["w"], data["XASthermal"]
    t = a.sum(axis=0)
    if o["T"] > 200:
        ctx.check(np.max(np.abs(a - a[0])) < 5e-3 * np.max(a), "the absorption of a cubic crystal depends on the direction of the polarisation", got=float(np.max(np.abs(a - a[0])) / np.max(a)), **info)
    xi = o["xi_2p"]
    w3 = w[np.argmax(t)]
    low = w < w3 + 0.75 * xi
    c3, c2 = np.sum(w[low] * t[low]) / t[low].sum(), np.sum(w[~low] * t[~low]) / t[~low].sum()
    ctx.check(abs((c2 - c3) / (1.5 * xi) - 1) < 0.15, "distance of the L2 and L3 edges", got=c2 - c3, want=1.5 * xi, **info)
    ctx.check(0.7 < t[low].sum() / t.sum() < 0.85, "branching ratio of the L2 and L3 edges", got=t[low].sum() / t.sum(), **info)
    dw = w[1] - w[0]
    for name, want in (("PS", 10.0), ("XPS", 6.0)):
        s = data[name + "thermal"].sum() * dw / np.pi
        ctx.check(0.97 * want < s < want + 1e-3, "number of orbitals seen by %s" % name, got=s, want=want, **info)
    wl, nx = data["wLoss"], data["NIXSthermal"].sum(axis=0)
    dd = (wl > 0.6) & (wl < 3.6)
    i = np.argmax(np.where(dd, nx, 0))
    ctx.check(0.7 < wl[i] < 3.5 and nx[i] > 3 * np.max(nx[(wl > 4.5) & (wl < 6.0)]), "d-d excitations in NIXS", got=wl[i], **info)
    ctx.event("edges")
    if "RIXSthermal" not in data:
        return
    rx = data["RIXSthermal"].sum(axis=(0, 1, 2))
    ctx.check(abs(wl[np.argmax(rx)]) < 0.05 or 0.7 < wl[np.argmax(rx)] < 3.5, "strongest feature of RIXS", got=wl[np.argmax(rx)], **info)
    ctx.check(np.max(rx[wl < -0.3], initial=0) < 0.1 * np.max(rx), "energy gain in RIXS", **info)
    ctx.event("rixs_features")


FULL = [("run_Ni_NiO_CF.sh", ()), ("run_Ni_NiO_Xbath.sh", ())]
REPORT = [("run_Co_CoO_CF.sh", ()), ("run_Ni_NiO_Xbath.sh", ("20",)), ("run_Ni_NiO_Xbath.sh", ("50",)), ("run_Fe_FeO_CF.sh", ()), ("run_Mn_MnO_CF.sh", ())]


def w_full(ctx):
    """A complete run; everything is compared with the exact solution of the documented model."""
    script, args = FULL[ctx.index % len(FULL)]
    extra = ("--T", "10") if (ctx.index // len(FULL)) % 2 else ()  # the example given in the README
    module, argv = example(script, args, extra)
    el = script.split("_")[1]
    pos, o, cf, masks, n, h0 = prepare(module, argv)
    x = c22.solved(o, h0, masks, n)
    c22.below_cut(x, o)
    x.module, x.g, x.cf, x.f0, x.frad = module, parse(argv)[1], cf, pos[0], pos[1]
    info = dict(script=script, arguments=args, extra=extra)
    ctx.case(script, args, extra, sample=dict(info, dim=len(masks), states=len(x.sel)))
    with tempfile.TemporaryDirectory() as d:
        data, text, rec, out = c22.run_program(module, argv, d)
    c22.judge_program(ctx, x, np.loadtxt(pos[1]).T, data, text, rec, out, info)
    judge_ground(ctx, el, c14.parse_table(out), info)
    judge_edges(ctx, data, o, info)
    ctx.event("full_examples")


def w_ground(ctx):
    """The report of an example (the calculation of the spectra is left out)."""
    script, args = REPORT[ctx.index % len(REPORT)]
    module, argv = example(script, args)
    el = script.split("_")[1]
    pos, o, cf, masks, n, h0 = prepare(module, argv)
    info = dict(script=script, arguments=args)
    ctx.case(script, args, sample=dict(info, dim=len(masks)))
    with tempfile.TemporaryDirectory() as d:
        out = c22.run_start(module, argv, d)[-1]
    rows = c14.parse_table(out)
    m = re.search(r"#basis states *= *(\d+)", out)
    ctx.check(m and int(m.group(1)) == len(masks), "number of basis states", got=m and m.group(1), want=len(masks), **info)
    judge_ground(ctx, el, rows, info)
    if len(masks) <= 2000:
        x = c22.solved(o, h0, masks, n)
        es = x.wex[:x.k]
        ctx.check(len(rows) == x.k, "number of rows in the table", got=len(rows), want=x.k, **info)
        for i, r in enumerate(rows):
            ctx.check(abs(r[1][0] - (es[i] - es[0])) <= r[1][1] + 1e-5, "energy in the table", row=i, got=r[1][0], want=es[i] - es[0], **info)
            ctx.event("energies")
        for grp in c20.groups(es, x.wex, 2e-3):
            ref = [c14.reference(x.s.ix, {mm: x.vex[a, i] for a, mm in enumerate(masks) if abs(x.vex[a, i]) ** 2 > 1e-13}) for i in grp]
            for c, f in ((2, lambda q: q["N"]), (9, lambda q: q["L2"]), (10, lambda q: q["S2"])):
                got, want = sum(rows[i][c][0] for i in grp), sum(f(q) for q in ref)
                ctx.check(abs(got - want) <= len(grp) * rows[grp[0]][c][1] + 1e-3, "expectation values in the table", multiplet=grp, column=c, got=got, want=want, **info)
        e0 = re.search(r"^E0 *= *(%s)" % c28.FLOAT, out, re.M)
        ctx.check(e0 is not None and abs(float(e0.group(1)) - es[0]) < 1e-4, "reported ground state energy", got=e0 and e0.group(1), want=es[0], **info)
    ctx.event("reports")


REFERENCE = os.path.join(REPO, "impurityModel", "test", "referenceOutput", "Ni_NiO_50bath")


def w_reference(ctx):
    """The example with 50 bath states, on several MPI ranks, against the output stored in the repository."""
    ranks = [4, 3, 6, 2][ctx.index % 4]
    module, argv = example("run_Ni_NiO_Xbath.sh", ("50", str(ranks)))
    info = dict(script="run_Ni_NiO_Xbath.sh", ranks=ranks)
    ctx.case(ranks, sample=info)
    data, text = mpi.run(ctx, [("cli", dict(dirname="x", module=module, argv=argv, thin=100))], ranks, delay=0.0, limit=380)[0][0]
    for name in ("PS", "XPS", "NIXS", "XAS"):
        want = np.loadtxt(os.path.join(REFERENCE, name + ".dat"))
        # four decimals are stored
        ctx.close(text[name + ".dat"], want, "%s.dat differs from the stored output" % name, rtol=2e-3, atol=3.1e-4, **info)
        ctx.event("reference_values", want.size)
    want = np.fromfile(os.path.join(REFERENCE, "RIXS.bin"), dtype=np.float32)
    # (the iterative solution depends on the version of scipy)
    ctx.close(text["RIXS.bin"], want, "RIXS.bin differs from the stored output", rtol=1e-2, atol=0.1, **info)
    ctx.event("reference_values", want.size)
    judge_edges(ctx, {k: v for k, v in data.items() if not k.startswith("RIXS")}, c22.DEFAULTS, info)
    ctx.event("reference_runs")


WORKLOADS = [W("reference", w_reference, 1, 4, cpu=600, first=True), W("full", w_full, 2, 4, cpu=600, first=True), W("ground", w_ground, 4, 5, cpu=1500, first=True), W("scripts", w_scripts, 12, 12, cpu=200), W("documented", w_documented, 1, 1, cpu=100)]
