"""C20: the accuracy report printed by run()."""
import ctypes
import os
import numpy as np
from hypothesis import strategies as st
import gen
import ref
from bx import check, loaded, quiet_fd, set_attrs

ID = "C20"
BUDGET = {"quick": 4800, "thorough": 80000}
RULE = ("random configuration, surface list and thread count, sometimes an object already used for another one; the text printed by "
        "run() at verbose=1 is cut into reports; there must be exactly one per js_b, and its js, |B| from the input series at "
        "theta=0,pi and zeta=0,pi/nfp (zeta=0 twice when nboz=0), |B| from the output series at the angles these points map to, and the "
        "relative error of the two must agree with the reference to the four printed digits. Non-trivial: |B| varies, the angles "
        "change and some reported error exceeds 1e-10")
ASSUMPTIONS = ["printed numbers have four significant digits: relative tolerance 6e-4 (errors: plus 1e-12 of the amplitude)"]


@st.composite
def _s(draw):
    c = draw(gen.run_case(strong=True, max_ns=5))
    c["threads"] = draw(st.sampled_from([1, 1, 2, 3, 8]))
    c["before"] = draw(st.sampled_from([0, 0, 1]))
    c["junk"] = draw(st.booleans())
    if draw(st.integers(0, 39)) == 23:      # a long table
        ns = c["cfg"]["ns"]
        c["surfs"] = draw(st.lists(st.integers(0, ns - 1), min_size=40, max_size=150))
        c["mboz"], c["nboz"] = min(c["mboz"], 4), min(c["nboz"], 2)
    c["scale"] = draw(st.sampled_from([1.0, 1.0, 1e-6, 3e4]))
    return c


def strategy(tier):
    return _s()


def parse(text):
    """-> list of [thread, js_b, js, 12 numbers]"""
    lines = text.splitlines()
    at = [i for i, l in enumerate(lines) if l.strip() and set(l.strip()) == {"-"}]
    check(len(at) == 1, "the report has %d rulers:\n%s", len(at), text[:600])
    rows, rep = [l.split() for l in lines[at[0] + 1:] if l.strip()], []
    check(len(rows) % 2 == 0, "the report has an odd number of lines:\n%s", text[:900])
    for a, b in zip(rows[::2], rows[1::2]):
        if len(a) == 9 and len(a[1]) > 4:      # the columns are four characters wide: js above 999 touches js_b
            a[1:2] = [a[1][:-4], a[1][-4:]]
        check(len(a) == 10 and a[3] == "0" and len(b) == 7 and b[0] == "pi", "malformed report: %r %r", a, b)
        rep.append([int(x) for x in a[:3]] + [float(x) for x in a[4:] + b[1:]])
    return rep


def run(case, ctx):
    cfg = case["cfg"]
    a = gen.materialize(cfg)
    for k in ("bmnc", "bmns"):
        if k in a:
            a[k] = a[k] * case["scale"]
    surfs, mboz, nboz, nfp = case["surfs"], case["mboz"], case["nboz"], cfg["nfp"]
    ctx.bx
    gomp = ctypes.CDLL("libgomp.so.1")
    gomp.omp_set_num_threads(case["threads"])
    out = ctx.path("stdout.txt")
    try:
        if case["before"]:
            c2 = dict(cfg, seed=cfg["seed"] ^ 1, asym=True)
            b = loaded(ctx.bx, gen.materialize(c2), mboz % 5 + 1, nboz % 3 + 1, list(range(cfg["ns"])))
            b.run()
            set_attrs(b, a)
            b.mboz, b.nboz, b.compute_surfs = mboz, nboz, surfs
        else:
            b = loaded(ctx.bx, a, mboz, nboz, surfs)
        if case["junk"] and not cfg["asym"]:
            b.bmns = np.where(a["bmnc"] != 0, 0.7, 0.3)
        b.verbose = 1
        with quiet_fd(out):
            b.run()
        text = open(out, errors="replace").read()
    finally:
        gomp.omp_set_num_threads(1)
        if os.path.exists(out):
            os.unlink(out)
    rep = parse(text)
    check(sorted(r[1] for r in rep) == list(range(len(surfs))), "reports for js_b = %s, %d surfaces were transformed",
          sorted(r[1] for r in rep), len(surfs))
    th = np.array([0.0, np.pi, 0.0, np.pi])
    ze = np.array([0.0, 0.0, 1.0, 1.0]) * (np.pi / nfp if nboz > 0 else 0.0)
    big = False
    xm, xn = np.array(b.xm_b), np.array(b.xn_b)
    bc = np.array(b.bmnc_b)
    bs = np.array(b.bmns_b) if cfg["asym"] else None
    for r in rep:
        thread, jb, js, v = r[0], r[1], r[2], np.array(r[3:]).reshape(4, 3)
        check(0 <= thread < case["threads"], "thread %d of %d", thread, case["threads"])
        check(js == surfs[jb], "report js_b=%d names js=%d, it is %d", jb, js, surfs[jb])
        f = ref.fields(a, js, th, ze)
        ser = ref.evaluate(xm, xn, bc[:, jb], None if bs is None else bs[:, jb], f["thB"], f["zeB"])
        amp = np.abs(bc[:, jb]).sum() + (np.abs(bs[:, jb]).sum() if bs is not None else 0)
        err = np.abs(ser - f["B"]) / np.maximum(ser, f["B"])
        for i in range(4):
            where = "report js_b=%d, theta=%s, zeta=%s" % (jb, "0" if i % 2 == 0 else "pi", "0" if i < 2 else "pi/nfp")
            n = 1e-12 * (1 + nfp * (mboz + nboz)) * amp
            check(abs(v[i, 0] - f["B"][i]) <= 6e-4 * abs(f["B"][i]) + n, "%s: |B|input %r, it is %.6e", where, v[i, 0], f["B"][i])
            check(abs(v[i, 1] - ser[i]) <= 6e-4 * abs(ser[i]) + n, "%s: |B|Boozer %r, the series gives %.6e", where, v[i, 1], ser[i])
            check(abs(v[i, 2] - err[i]) <= 6e-4 * abs(err[i]) + 2 * n / f["B"][i], "%s: error %r, it is %.6e", where, v[i, 2], err[i])
            big |= err[i] > 1e-10
    return {"nontrivial": bool(gen.interesting_fields(cfg) and big),
            "tags": gen.cfg_tags(cfg) + ["nboz0" if nboz == 0 else "nboz>0", "threads %d" % case["threads"]] + (["reused"] if case["before"] else [])}
