"""C28: the report printed by a run describes the eigenstates that were found."""
import ast
import re
import tempfile

import numpy as np

from vm import fock
from vm.core import Skip, W
from checks import c14, c15, c20, c22

FLOAT = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def sections(text):
    """{eigenstate: [lines]} of the two lists of the report: determinants and density matrices."""
    det, rho, now = {}, {}, None
    for line in text.splitlines():
        m = re.match(r"\s*Eigenstate\s+(\d+)(\.?)\s*$", line)
        if m:
            now = (det if m.group(2) else rho).setdefault(int(m.group(1)), [])
        elif re.match(r"time\(|Consider|Density matrix|Slater", line):
            now = None
        elif now is not None:
            now.append(line)
    return det, rho


def parse_determinants(lines):
    t = "\n".join(lines)
    m = re.search(r"Consists of\s+(\d+)\s+product states", t)
    size = int(m.group(1)) if m else None
    if "weights:" not in t:
        return size, [], []
    a, b = t.split("weights:", 1)[1].split("Corresponding product states:", 1)
    ws = [float(x) for x in re.findall(FLOAT, a)]
    ps = [ast.literal_eval(x) for x in re.findall(r"b'(?:[^'\\]|\\.)*'|b\"(?:[^\"\\]|\\.)*\"", b)]
    return size, ws, ps


def parse_density(lines):
    out = {}
    n = None
    for line in lines:
        m = re.match(r"\s*#density matrix elements:\s*(\d+)", line)
        if m:
            n = int(m.group(1))
            continue
        k = [tuple(int(y) for y in x) for x in re.findall(r"\(\s*(\d)\s*,\s*(\d)\s*\)", line)]
        if not k:
            continue
        label = re.search(r"\(\s*([a-z])\w*\s*,\s*([a-z])\w*\s*\)", line)
        if label and label.group(1) == "i":  # orbital before spin, if the report says so
            k = [x[::-1] for x in k]
        v = complex(re.split(r"=|\s", line.rstrip())[-1].replace(" ", ""))
        key = (k[0], k[0]) if line.strip().startswith("Diagonal") else (k[0], k[1])
        out[key] = v
    return n, out


def w_report(ctx):
    cf = ctx.index % 4 == 0
    x = c22.given_parameters(ctx, cf, 260 if ctx.thorough else 130, kmax=9)
    g, o, s, n, wex, vex, k = x.g, x.o, x.s, x.n, x.wex, x.vex, x.k
    nb = s.nBaths
    g["nPrintSlaterWeights"] = o["nPrintSlaterWeights"] = npr = ctx.pick([0, 1, 2, 3, 5, 8, 400])
    g["tolPrintOccupation"] = o["tolPrintOccupation"] = tol = ctx.pick([0.0, 0.0, 0.01, 0.1, 0.3, 0.5, 0.75, 2.0])
    T = o["T"]
    with tempfile.TemporaryDirectory() as d:
        argv = c22.input_files(ctx, x, d)
        info = dict(program=x.module.rsplit(".")[-1], options=g)
        ctx.case(x.module, repr(sorted(g.items())), repr(sorted(x.h0.items(), key=repr)), sample=dict(info, dim=len(x.masks), states=k))
        out = c22.run_start(x.module, argv, d)[-1]
    es = wex[:k]
    gs = c20.groups(es, wex, 2e-3)
    # numbers of the exact eigenstates; sums over multiplets are independent of the choice of eigenvectors
    ref = {}
    for i in [i for x_ in gs for i in x_]:
        p = {m: vex[a, i] for a, m in enumerate(x.masks) if abs(vex[a, i]) ** 2 > 1e-13}
        ref[i] = c14.reference(s.ix, p)
    row = lambda i: np.array([ref[i]["N"], *ref[i]["occ"], ref[i]["Lz"], ref[i]["Sz"], ref[i]["L2"], ref[i]["S2"]])
    for pattern, want in ((r"#spin-orbitals: *(\d+)", n), (r"#basis states *= *(\d+)", len(x.masks)), (r"Consider *(\d+) *eigenstates", len(x.sel))):
        m = re.search(pattern, out)
        ctx.check(m is not None, "a number is not reported", pattern=pattern, **info)
        ctx.check(int(m.group(1)) == want, "reported number", pattern=pattern, got=m.group(1), want=want, **info)
        ctx.event("reported_numbers")
    e0 = re.search(r"^E0 *= *(%s)" % FLOAT, out, re.M)
    ctx.check(e0 is not None and abs(float(e0.group(1)) - es[0]) < 1e-4, "reported ground state energy", got=e0 and e0.group(1), want=es[0], **info)
    # the table
    rows = c14.parse_table(out)
    ctx.check(len(rows) == k, "number of rows in the table", got=len(rows), want=k, **info)
    for i, r in enumerate(rows):
        ctx.check(r[0][0] == i and abs(r[1][0] - (es[i] - es[0])) <= r[1][1] + 1e-5, "energy in the table", row=i, got=r[1][0], want=es[i] - es[0], **info)
    for grp in gs:
        for c in range(9):
            got, want = sum(rows[i][c + 2][0] for i in grp), sum(row(i)[c] for i in grp)
            ctx.check(abs(got - want) <= len(grp) * rows[grp[0]][c + 2][1] + 1e-3, "expectation values in the table", multiplet=grp, column=c, got=got, want=want, **info)
            ctx.event("table_values")
    c15.judge_report(ctx, out, es, wex, gs, row, T, info)
    det, rho = sections(out)
    ctx.check(sorted(det) == list(range(k)) and sorted(rho) == list(range(k)), "not exactly one section per eigenstate", got=(sorted(det), sorted(rho)), want=k, **info)
    index = {m: a for a, m in enumerate(x.masks)}
    nbytes = -(-n // 8)
    sign = c14.code_signs(ctx)
    for i in range(k):
        size, ws, ps = parse_determinants(det[i])
        ctx.check(size is not None and 1 <= size <= len(x.masks), "number of product states of an eigenstate", got=size, **info)
        ctx.check(len(ws) == len(ps) == min(npr, size), "number of reported product states", got=(len(ws), len(ps)), want=min(npr, size), **info)
        ctx.check(all(a >= b - 1e-9 for a, b in zip(ws, ws[1:])) and sum(ws) <= 1 + 1e-5, "the reported weights are not the largest ones in decreasing order", got=ws, **info)
        # (numpy omits zeros at the end of a byte string)
        ms = [fock.from_bytes(q.ljust(nbytes, b"\0"), n) for q in ps]
        ctx.check(len(set(ms)) == len(ms) and all(m in index for m in ms), "a reported product state is not in the basis", got=ps, **info)
        ctx.event("reported_determinants", len(ms))
    for grp in gs:
        wt = np.sum(np.abs(vex[:, grp]) ** 2, axis=1)
        for i in grp:
            size, ws, ps = parse_determinants(det[i])
            ms = [fock.from_bytes(q.ljust(nbytes, b"\0"), n) for q in ps]
            # no state of a multiplet has more weight on a product state than the multiplet
            for m, q in zip(ms, ws):
                ctx.check(q <= wt[index[m]] + 1e-5, "weight of a product state", eigenstate=i, product_state=m, got=q, limit=wt[index[m]], **info)
            if len(grp) > 1:
                continue
            top = np.sort(wt)[::-1]
            lo, hi = int(np.sum(wt > 1.02e-7)), int(np.sum(wt > 0.98e-7))
            ctx.check(lo <= size <= hi, "number of product states of an eigenstate", eigenstate=i, got=size, want=(lo, hi), **info)
            for j, (m, q) in enumerate(zip(ms, ws)):
                ctx.check(abs(q - top[j]) <= 1e-5 and abs(q - wt[index[m]]) <= 1e-5, "weight of a product state", eigenstate=i, product_state=m, got=q, want=wt[index[m]], rank=j, **info)
                ctx.event("weights_of_single_states")
        # density matrices
        want = sum(ref[i]["cubic"] for i in grp)
        dens = [parse_density(rho[i]) for i in grp]
        for num, el in dens:
            ctx.check(all(abs(v) > tol - 0.0073 for v in el.values()), "an element below the limit is reported", got=el, limit=tol, **info)
            ctx.check(num is not None and num >= len(el), "number of elements of the density matrix", got=num, elements=len(el), **info)
        if len(grp) > 1 and tol > 0:
            continue
        for a in range(2):
            for b in range(2):
                for p in range(5):
                    for q in range(5):
                        y = want[5 * a + p, 5 * b + q] * sign[p] * sign[q]
                        key = ((a, p), (b, q))
                        got = [el[key] for _, el in dens if key in el]
                        if len(grp) == 1:
                            if abs(y) > tol + 3e-3:
                                ctx.check(got, "an element of the density matrix is not reported", element=key, value=y, limit=tol, **info)
                            elif abs(y) < tol - 3e-3:
                                ctx.check(not got, "an element below the limit is reported", element=key, value=y, limit=tol, **info)
                        if got or len(grp) > 1:
                            z, lim = sum(got), 0.0051 * len(grp) + 1.5e-3
                            ctx.check(abs(z.real - y.real) <= lim and abs(z.imag - y.imag) <= lim, "reported density matrix", element=key, multiplet=grp, got=z, want=y, **info)
                            ctx.event("density_elements")
                            if a != b or p != q:
                                ctx.event("offdiagonal_elements")
    ctx.event("reports")
    ctx.event("report_CF" if cf else "report_stored")


WORKLOADS = [W("report", w_report, 420, 6000, cpu=300)]
