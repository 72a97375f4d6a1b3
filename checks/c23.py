"""C23: the plotting programs show the numbers in the data files."""
import contextlib
import io
import os
import re
import runpy
import sys
import tempfile
import warnings

import numpy as np

from vm import sim
from vm.core import W

CUTOFF = 1e-6


class Figures:
    """What is on the screen when the program calls show()."""

    def __init__(self):
        self.lines, self.images, self.shows = [], [], 0

    def show(self, *args, **kwargs):
        import matplotlib.pyplot as plt

        self.shows += 1
        for n in plt.get_fignums():
            fig = plt.figure(n)
            fig.canvas.draw()  # reports everything that cannot be drawn
            fid = (self.shows, n)
            for k, ax in enumerate(fig.axes):
                for ln in ax.get_lines():
                    if not ln.get_visible():
                        continue
                    legend = [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []
                    self.lines.append(dict(fig=fid, ax=k, x=np.array(ln.get_xdata(), dtype=float), y=np.array(ln.get_ydata(), dtype=float), label=ln.get_label(), legend=legend, xlabel=ax.get_xlabel()))
                for im in ax.get_images():
                    spec = ax.get_subplotspec()
                    spec = spec and spec.get_topmost_subplotspec()  # a colour bar moves its axes
                    self.images.append(dict(fig=fid, ax=k, z=np.ma.masked_invalid(np.ma.array(im.get_array(), dtype=float)), extent=tuple(im.get_extent()), origin=im.origin, norm=type(im.norm).__name__, xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(),
                                            row=spec.rowspan.start if spec else 0, col=spec.colspan.start if spec else 0, grid=spec.get_gridspec().get_geometry() if spec else (1, 1),
                                            xlim=ax.get_xlim(), ylim=ax.get_ylim()))
        plt.close("all")


def run_script(name, args, cwd):
    """Runs a plotting program; returns the figures that were shown."""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    module = "impurityModel.plotScripts." + name
    plt.close("all")
    f = Figures()
    old_show, old_argv, old_cwd, old_mod = plt.show, sys.argv, os.getcwd(), sys.modules.pop(module, None)
    out = io.StringIO()
    try:
        plt.show = lambda *a, **k: f.show(*a, **k)
        sys.argv = [name + ".py"] + args
        os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                runpy.run_module(module, run_name="__main__", alter_sys=True)
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise
    finally:
        plt.show, sys.argv = old_show, old_argv
        os.chdir(old_cwd)
        if old_mod is not None:
            sys.modules[module] = old_mod
        plt.close("all")
    return f


# ---- oracle

def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and (a.size == 0 or bool(np.all(np.abs(a - b) <= tol * (1e-12 + np.max(np.abs(b))))))


def take(lines, x, y, tol=1e-9):
    """Removes and returns the curve with these data."""
    for i, ln in enumerate(lines):
        if close(ln["x"], x, tol) and close(ln["y"], y, tol):
            return lines.pop(i)
    return None


def judge_image(ctx, im, z, w_in, w_loss, what, tol, /, **info):
    """The image shows z[loss, in]: value, position and masking of every pixel."""
    got = im["z"]
    ctx.check(got.shape == z.shape, "shape of the image of " + what, got=got.shape, want=z.shape, **info)
    l, r, b, t = im["extent"]
    ny, nx = got.shape
    xs = l + (np.arange(nx) + 0.5) * (r - l) / nx
    ys = (b + (np.arange(ny) + 0.5) * (t - b) / ny) if im["origin"] == "lower" else (t - (np.arange(ny) + 0.5) * (t - b) / ny)
    dx, dy = abs(w_in[1] - w_in[0]), abs(w_loss[1] - w_loss[0])
    ctx.check(np.all(np.abs(xs - w_in) <= 1e-3 * dx), "incoming energies of the pixels of " + what, got=xs, want=w_in, extent=im["extent"], **info)
    ctx.check(np.all(np.abs(ys - w_loss) <= 1e-3 * dy), "energy losses of the pixels of " + what, got=ys, want=w_loss, extent=im["extent"], origin=im["origin"], **info)
    for lim, (p, q), name in ((im["xlim"], (l, r), "x"), (im["ylim"], (b, t), "y")):
        ctx.check(np.allclose(sorted(lim), sorted((p, q)), rtol=0, atol=1e-6 * abs(q - p)), "the shown range differs from that of the data: " + what, axis=name, got=lim, want=(p, q), **info)
    masked = np.ma.getmaskarray(got)
    sure = np.abs(z - CUTOFF) > 1e-5 * CUTOFF + tol * np.abs(z).max(initial=0) * 1e-6
    bad = sure & (masked != (z < CUTOFF))
    if np.any(bad):
        j = tuple(int(k[0]) for k in np.nonzero(bad))
        ctx.check(False, "masking of values below the cut-off in the image of " + what, at=j, value=z[j], masked=bool(masked[j]), n_bad=int(bad.sum()), **info)
    d = np.abs(got.filled(0) - np.where(masked, 0, z))
    ctx.check(np.all(d <= tol * np.abs(z) + 1e-12), "values in the image of " + what, got=got, want=z, **info)
    ctx.event("pixels", int(z.size))
    ctx.event("masked_pixels", int(masked.sum()))
    if masked.all():
        ctx.event("maps_without_intensity")
    ctx.event("maps_compared")


def judge_figures(ctx, f, d, /, **info):
    """Everything shown by plotSpectra for the datasets d."""
    lines, images = list(f.lines), list(f.images)
    w, wl, win = d.get("w"), d.get("wLoss"), d.get("wIn")
    rixs = d.get("RIXSthermal")
    curves, same_axes = [], []
    for name in ("PS", "XPS", "XAS"):
        if name + "thermal" in d:
            curves.append((name, w, d[name + "thermal"].sum(axis=0), [name == "XAS" and rixs is not None]))
    if "XASthermal" in d and rixs is not None:
        s = (wl[1] - wl[0]) / (np.pi * rixs.shape[0])
        curves.append(("fluorescence yield", win, s * rixs.sum(axis=(0, 1, 3)), [True]))
        curves.append(("quasi-elastic fluorescence yield", win, s * rixs[..., wl < 0.2].sum(axis=(0, 1, 3)), [True]))
    where = {}
    for name, x, y, _ in curves:
        ln = take(lines, x, y)
        near = [z for z in f.lines if close(z["x"], x) and z["y"].shape == np.shape(y)]
        ctx.check(ln is not None, "no curve shows " + name, curves_with_this_axis=[z["label"] for z in near], got=[z["y"] for z in near][:2], want=y, **info)
        where[name] = (ln["fig"], ln["ax"])
        ctx.check(ln["label"] in ln["legend"], "a curve is not explained in the legend", curve=name, label=ln["label"], legend=ln["legend"], **info)
        ctx.event("curves_compared")
    main = [where[k] for k in ("PS", "XPS", "XAS") if k in where]
    ctx.check(len(set(main)) == len(main), "different spectra in one plot", got=where, **info)
    for k in where:
        if "yield" in k:
            ctx.check(where[k] == where["XAS"], "fluorescence yield is not in the plot of the XAS", got=where, **info)
    if "NIXSthermal" in d:
        nixs, axs, labels = d["NIXSthermal"], set(), []
        for i in range(len(nixs)):
            ln = take(lines, wl, nixs[i])
            ctx.check(ln is not None, "no curve shows the NIXS spectrum", momentum=i, want=nixs[i], **info)
            axs.add((ln["fig"], ln["ax"]))
            labels.append(ln["label"])
            if "qsNIXS" in d:
                q = float(np.linalg.norm(d["qsNIXS"][i]))
                num = [float(v) for v in re.findall(r"\d+\.\d+|\d+", ln["label"].replace("^{-1}", ""))]
                ctx.check(any(abs(v - q) <= 0.0501 for v in num), "label of a NIXS curve", got=ln["label"], want=q, **info)
                ctx.event("momentum_labels")
            else:
                ctx.check(str(i) in ln["label"], "label of a NIXS curve", got=ln["label"], want=i, **info)
            ctx.event("curves_compared")
        ctx.check(len(axs) == (1 if len(nixs) else 0) and not axs & set(main), "NIXS curves are not in one plot of their own", got=axs, **info)
    if rixs is not None:
        tot = rixs.sum(axis=(0, 1))
        rest, count, offsets = list(lines), {}, {}
        for ln in rest:
            if not close(ln["x"], wl):
                continue
            num = re.findall(r"-?\d+\.\d+|-?\d+", ln["label"])
            ctx.check(len(num) == 1, "label of an energy-loss curve", got=ln["label"], **info)
            dist = np.abs(win - float(num[0]))
            cand = [i for i in np.nonzero(dist <= dist.min() + 0.0501)[0] if ln["y"].shape == tot[i].shape and np.ptp(ln["y"] - tot[i]) <= 1e-9 * (np.abs(tot).max() + 20)]
            ctx.check(cand, "an energy-loss curve does not show the spectrum at its incoming energy", label=ln["label"], nearest=int(np.argmin(dist)), got=ln["y"], want=tot[int(np.argmin(dist))], **info)
            lines.pop(next(k for k, z in enumerate(lines) if z is ln))
            key = (ln["fig"], ln["ax"])
            count[key] = count.get(key, 0) + 1
            offsets.setdefault(key, []).append((float(num[0]), float(np.mean(ln["y"] - tot[cand[0]]))))
            ctx.event("energy_loss_curves")
        ctx.check(len(count) == 2, "energy-loss spectra are not in two plots", got=count, **info)
        for key, lst in offsets.items():
            o = [b for a, b in sorted(lst)]
            ctx.check(len(lst) > 1 and np.all(np.diff(o) > 0.5), "curves are not ordered by the incoming energy", got=sorted(lst), **info)
        # the maps
        grids = {}
        for im in images:
            grids.setdefault(im["fig"], []).append(im)
        ctx.check(sum(len(g) for g in grids.values()) == 1 + (rixs.shape[0] * rixs.shape[1] if rixs.shape[:2] != (1, 1) else 0), "number of maps", got={k: len(v) for k, v in grids.items()}, polarisations=rixs.shape[:2], **info)
        total = [g[0] for g in grids.values() if len(g) == 1]
        ctx.check(len(total) == 1, "no map of the summed intensity", got={k: len(v) for k, v in grids.items()}, **info)
        im = total[0]
        ctx.check("in" in im["xlabel"] and "loss" in im["ylabel"], "axis labels of the map", got=(im["xlabel"], im["ylabel"]), **info)
        judge_image(ctx, im, tot.T, win, wl, "the summed RIXS intensity", 1e-9, **info)
        if rixs.shape[:2] != (1, 1):
            g = [g for g in grids.values() if len(g) > 1][0]
            seen = set()
            for im in g:
                i, j = im["row"], im["col"]
                ctx.check(i < rixs.shape[0] and j < rixs.shape[1] and (i, j) not in seen, "position of a polarisation map", got=(i, j), grid=im["grid"], **info)
                seen.add((i, j))
                judge_image(ctx, im, rixs[i, j].T, win, wl, "the polarisation channel (%d, %d)" % (i, j), 1e-9, **info)
                if i == rixs.shape[0] - 1:
                    ctx.check("in" in im["xlabel"], "axis label of a polarisation map", at=(i, j), got=im["xlabel"], **info)
                if j == 0:
                    ctx.check("loss" in im["ylabel"], "axis label of a polarisation map", at=(i, j), got=im["ylabel"], **info)
                ctx.event("polarisation_maps")
    else:
        ctx.check(not images, "a map is shown without RIXS data", got=len(images), **info)
    ctx.check(not lines, "a curve shows something that is not in the file", got=[(z["label"], z["x"][:3], z["y"][:3]) for z in lines], datasets=sorted(d), **info)


# ---- workloads

def mesh(ctx, lo, hi, n):
    a = ctx.rng.uniform(lo, lo + 0.4 * (hi - lo))
    return np.linspace(a, a + ctx.rng.uniform(0.4, 0.9) * (hi - lo), n)


def spectrum(ctx, shape):
    a = ctx.np.uniform(0, 1, size=shape) ** ctx.pick([1, 3, 8])
    a = a * 10.0 ** ctx.pick([ctx.rng.uniform(-2, 1.5), ctx.rng.uniform(-2, 1.5), ctx.rng.uniform(-7, 7)])
    if ctx.chance(0.2):
        a = a * (ctx.np.uniform(size=shape) < 0.7)
    return a


def content(ctx):
    """Datasets of a random file."""
    d = {}
    nw, nl, ni = [ctx.pick([2, 3, 7, 20, 51]) for _ in range(3)]
    if ctx.chance(0.15):
        nl = ni = nw
    big = ctx.pick(["w", "map", "polarisations", "momenta"]) if ctx.chance(0.25) else None
    if big == "w":
        nw = ctx.pick([1001, 3000, 10000])
    if big == "map":
        nl, ni = ctx.pick([(1200, 100), (400, 300), (2000, 64)])
    d["w"], d["wLoss"], d["wIn"] = mesh(ctx, -25, 25, nw), mesh(ctx, -3, 14, nl), mesh(ctx, -15, 22, ni)
    full = ctx.chance(0.25)
    have = [x for x in ("PS", "XPS", "XAS", "NIXS", "RIXS") if full or ctx.chance(0.55)]
    nt, nq = ctx.int(1, 3), ctx.int(1, 4) if big != "momenta" else ctx.int(9, 30)
    shapes = dict(PS=(ctx.int(1, 10), nw), XPS=(ctx.int(1, 6), nw), XAS=(ctx.int(1, 3), nw), NIXS=(nq, nl), RIXS=(ctx.pick([1, 1, 2, 3, 3]), ctx.pick([1, 1, 2, 3]), ni, nl))
    if big == "polarisations":
        shapes["RIXS"] = ctx.pick([(7, 2), (2, 7), (4, 6), (1, 9), (8, 1)]) + (ni, nl)
    if big == "map":
        shapes["RIXS"] = ctx.pick([(1, 1), (1, 2), (2, 1)]) + (ni, nl)
    if big:
        have = sorted(set(have) | {dict(w=ctx.pick(["PS", "XPS", "XAS"]), map="RIXS", polarisations="RIXS", momenta="NIXS")[big]})
        ctx.event("large_" + big)
    for x in have:
        a = spectrum(ctx, shapes[x])
        if x == "RIXS":
            a = a * 10.0 ** ctx.pick([0, 0, -3, -6, 3, 7])
            if ctx.chance(0.3):
                a[ctx.int(0, a.shape[0] - 1), ctx.int(0, a.shape[1] - 1)] *= ctx.pick([0, 1e-9])
        d[x + "thermal"] = a
        d[x] = spectrum(ctx, (nt,) + shapes[x])  # must not be shown
    if ctx.chance(0.7):
        q = ctx.np.normal(size=(nq, 3))
        d["qsNIXS"] = q / np.linalg.norm(q, axis=1)[:, None] * ctx.np.uniform(0.5, 12, size=nq)[:, None]
    if ctx.chance(0.6):
        r = np.linspace(0.01, 5, 40)
        d["r"], d["RiNIXS"], d["RjNIXS"] = r, np.exp(-r), np.exp(-r)
    d["E"] = np.sort(ctx.np.normal(size=nt))
    return d, have


def write(path, d):
    import h5py

    with h5py.File(path, "w") as f:
        for k, v in d.items():
            f.create_dataset(k, data=v)


def files(ctx, d, default):
    """(argument list, path of the file to be shown)."""
    if ctx.chance(0.5):
        return [], os.path.join(d, default)
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    rel = ctx.pick(["other.dat", os.path.join("sub", default), "x " + default, os.path.join("sub", "a.b")])
    path = os.path.join(d, rel)
    return [path if ctx.chance(0.3) else rel], path


def w_spectra(ctx):
    d, have = content(ctx)
    ctx.case(sorted((k, v.shape) for k, v in d.items()), {k: float(v.sum()) for k, v in d.items()}, sample=dict(have=have, shapes={k: v.shape for k, v in d.items()}))
    with tempfile.TemporaryDirectory() as tmp:
        args, path = files(ctx, tmp, "spectra.h5")
        if args:
            write(os.path.join(tmp, "spectra.h5"), content(ctx)[0])
        write(path, d)
        before = open(path, "rb").read()
        f = run_script("plotSpectra", args, tmp)
        ctx.check(open(path, "rb").read() == before, "the data file was changed")
    judge_figures(ctx, f, d, arguments=args)
    ctx.event("default_name" if not args else "explicit_name")
    ctx.event("plots")
    if len(have) < 5:
        ctx.event("missing_datasets")


def w_rixs(ctx):
    ni, nl = ctx.pick([2, 3, 7, 20, 51]), ctx.pick([2, 3, 7, 20, 51])
    if ctx.chance(0.15):
        ni, nl = ctx.pick([(1200, 100), (400, 300), (64, 2000), (100, 1500)])
        ctx.event("large_map")
    win, wl = mesh(ctx, -15, 22, ni).astype(np.float32), mesh(ctx, -3, 14, nl).astype(np.float32)
    z = (spectrum(ctx, (nl, ni)) * 10.0 ** ctx.pick([0, -4, -6])).astype(np.float32)
    if ctx.chance(0.08):
        z *= 0
    x = np.zeros((nl + 1, ni + 1), dtype=np.float32)
    x[0, 0], x[0, 1:], x[1:, 0], x[1:, 1:] = ni, win, wl, z
    ctx.case(float(z.sum()), ni, nl, sample=dict(shape=z.shape))
    with tempfile.TemporaryDirectory() as tmp:
        args, path = files(ctx, tmp, "RIXS.bin")
        if args:
            np.ones((4, 4), dtype=np.float32).tofile(os.path.join(tmp, "RIXS.bin"))
        x.tofile(path)
        f = run_script("plotRIXS", args, tmp)
    ctx.check(len(f.images) == 1 and not f.lines, "not exactly one map is shown", got=(len(f.images), len(f.lines)), arguments=args)
    im = f.images[0]
    ctx.check("in" in im["xlabel"] and "loss" in im["ylabel"], "axis labels of the map", got=(im["xlabel"], im["ylabel"]))
    judge_image(ctx, im, z.astype(float), win.astype(float), wl.astype(float), "RIXS.bin", 1e-6, arguments=args)
    ctx.event("default_name" if not args else "explicit_name")
    ctx.event("plots")


def w_missing(ctx):
    script, default = ctx.pick([("plotSpectra", "spectra.h5"), ("plotRIXS", "RIXS.bin")])
    ctx.case(script, ctx.index)
    with tempfile.TemporaryDirectory() as tmp:
        kind = ctx.pick(["default", "explicit", "directory", "arguments"])
        if kind == "default":
            args = []
        else:
            if script == "plotSpectra":
                write(os.path.join(tmp, default), content(ctx)[0])
            else:
                np.array([[1, 0], [0, 1]], dtype=np.float32).tofile(os.path.join(tmp, default))
            os.mkdir(os.path.join(tmp, "dir"))
            args = {"explicit": ["missing_" + default], "directory": ["dir"], "arguments": [default, default, "x"]}[kind]
        shown = []

        def go():
            shown.append(None)
            f = run_script(script, args, tmp)
            return f.shows

        ctx.raises(go, "a missing file or wrong arguments are not reported as an error", script=script, arguments=args)
        left = sorted(os.listdir(tmp))
    ctx.check(left == sorted(({default, "dir"} if kind != "default" else set())), "files were created for a missing data file", got=left, script=script, arguments=args)
    ctx.event("missing_files")


def w_simulation(ctx):
    """Files written by a simulation."""
    import h5py

    from impurityModel.ed import spectra

    s = sim.make(ctx, nds=(1, 9), nbs=(0, 0, 1), kmax=2)
    p = sim.parameters(ctx)
    if min(len(p["wLoss"]), len(p["wIn"]), len(p["w"])) < 2:
        p["wLoss"], p["wIn"], p["w"] = np.linspace(-1, 4, 9), np.linspace(-6, 8, 4), np.linspace(-10, 10, 21)
    if any(len(p[k]) > 2 and np.ptp(np.diff(p[k])) > 1e-6 * np.max(np.abs(np.diff(p[k]))) for k in ("wLoss", "wIn")):
        p["wLoss"], p["wIn"] = [np.linspace(p[k][0], p[k][-1] + (p[k][0] == p[k][-1]), len(p[k])) for k in ("wLoss", "wIn")]
    ctx.case(sorted(s.hop.items(), key=repr), repr(p), sample=dict(nd=s.nd, baths=s.nb))
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                with h5py.File("spectra.h5", "w") as h5f:
                    spectra.simulate_spectra(*sim.arguments(s, p, h5f))
        finally:
            os.chdir(cwd)
        # the meshes and momentum transfers, which the programs store themselves
        with h5py.File(os.path.join(tmp, "spectra.h5"), "a") as h5f:
            for k, v in dict(w=p["w"], wLoss=p["wLoss"], wIn=p["wIn"], qsNIXS=np.array(p["qs"])).items():
                if k not in h5f:
                    h5f.create_dataset(k, data=v)
        data, text = sim.read(tmp)
        f = run_script("plotSpectra", [], tmp)
        judge_figures(ctx, f, data, source="simulation")
        f = run_script("plotRIXS", [], tmp)
        ctx.check(len(f.images) == 1, "not exactly one map is shown", got=len(f.images))
        judge_image(ctx, f.images[0], data["RIXSthermal"].sum(axis=(0, 1)).T, np.asarray(p["wIn"]), np.asarray(p["wLoss"]), "RIXS.bin", 2e-5)
    ctx.event("simulation_files")


WORKLOADS = [W("spectra", w_spectra, 64, 3000), W("rixs", w_rixs, 48, 2000), W("missing", w_missing, 24, 400), W("simulation", w_simulation, 6, 60)]
