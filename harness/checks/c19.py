"""C19: the Python and the C++ command-line driver against the library."""
import os
import shutil
import subprocess
import sys
import numpy as np
from hypothesis import strategies as st
import gen
import vm
from bx import check, quiet_fd, describe, Violation

ID = "C19"
BUDGET = {"quick": 2400, "thorough": 40000}
RULE = ("random equilibrium in a wout file and a random input file: resolutions below and above the defaults, any extension (also ones that "
        "look like numbers), surfaces unsorted, repeated, signed or zero-padded, any whitespace between tokens, then optionally a token that "
        "is not an integer followed by anything; or a faulty one (missing tokens, bad resolution, no wout or a broken one, surfaces out of "
        "range, missing input file, wrong argument count). Python driver (in-process, some in their own process), C++ executable and library "
        "calls must agree on the whole contents of the output file, or must both fail and write nothing. Non-trivial: a run with surfaces "
        "given or a faulty input")
ASSUMPTIONS = ["the version text is not compared; floating-point data of the executable are compared to 1e-12 of each variable's largest value"]
WS = [" ", "\n", "\t", "  ", " \n", "\r\n", "\v", "\f", "\n\n\t "]
STOP = ["abc", "3.5", "12abc", "#", "!", "1e3", "0x2", "1_0", "--1", "+", "-", "+-3", "/", "1,2", ",", "\u0662", "1\u00a02", "\x1c", "'1'", "4;"]
EXT = "abcXYZ019_-.#,=+%{}()@!~\u00e9\u65e5"
FAULTS = ["short", "short", "badres", "nowout", "badwout", "surf", "surf", "surf", "bigint", "noinput", "args0", "args2", "empty", "nan"]


@st.composite
def _s(draw):
    cfg = draw(vm.vmec(max_ns=6, max_m=2, max_n=2, wide=False))
    cfg["extra"][0] = max(cfg["extra"][0], 1)      # as in VMEC, mpol is at least 1
    w = draw(st.integers(0, 29))
    if w == 17:
        cfg["ns"] = draw(st.integers(20, 260))
    elif w in (11, 13, 19):
        cfg["ns"] = draw(st.integers(10, 40))
    few = draw(st.integers(7, 15)) if w == 13 else None
    ext = draw(st.one_of(st.text(EXT, min_size=1, max_size=8), st.text(EXT, min_size=1, max_size=8), st.text(EXT, min_size=1, max_size=150), st.sampled_from(["12", "3.5", "-1", "li383_1.4m", "+4", "nc", "a.nc", "wout_a", "boozmn_b.nc", "input.x"])))
    c = {"cfg": cfg, "ext": ext, "dm": draw(st.integers(-30, 8)), "dn": draw(st.integers(-9, 5)),
         "surfs": draw(st.lists(st.integers(0, cfg["ns"] - 2), min_size=few or (draw(st.sampled_from([1, 1, 100, 200])) if w == 17 else 0), max_size=few or (300 if w == 17 else 60 if w in (11, 19) else 6))),
         "fmt": draw(st.lists(st.sampled_from(["", "", "", "+", "0", "+00", "-0"]), min_size=1, max_size=4)),
         "ws": draw(st.lists(st.sampled_from(WS), min_size=1, max_size=5)), "lead": draw(st.sampled_from(["", "", " ", "\n", "\t\n "])),
         "trail": draw(st.sampled_from(["", "\n", "\n", " \n", "\r\n"])),
         "stop": draw(st.one_of(st.none(), st.none(), st.sampled_from(STOP))), "after": draw(st.sampled_from(["", "1", "0 99999", "junk 0", "\n-1\n"])),
         "fault": draw(st.one_of(st.none(), st.none(), st.none(), st.sampled_from(FAULTS))), "r": draw(st.integers(0, 2**20)),
         "where": draw(st.sampled_from(["."] * 5 + ["sub", "./", "sub/../", "abs", "a b"])),
         "big": draw(st.integers(12, 60)) if w == 23 else 0, "own": draw(st.integers(0, 39)) == 23, "stale": draw(st.booleans()), "threads": draw(st.sampled_from([1, 1, 2, 5]))}
    return c


def strategy(tier):
    return _s()


def fmt(n, f):
    if f in ("+", "+00") and n < 0:
        return str(n)
    if f in ("0", "+00"):
        return f.replace("0", "") + "00" + str(n) if n >= 0 else str(n)
    if f == "-0":
        return "-0" if n == 0 else str(n)
    return f + str(n)


def contents(path):
    from scipy.io import netcdf_file
    f = netcdf_file(path, mmap=False)
    v = {k: np.array(x.data) for k, x in f.variables.items() if k != "version"}
    a = {k: dict(x._attributes) for k, x in f.variables.items()}
    d = {k: n for k, n in f.dimensions.items() if not k.startswith("dim_")}
    t = {k: x.dimensions for k, x in f.variables.items() if k != "version"}
    f.close()
    return d, v, a, t


def same_file(p, q, what, exact):
    x, y = contents(p), contents(q)
    check(x[0] == y[0], "%s: dimensions %s, the library's %s", what, x[0], y[0])
    check(list(x[1]) == list(y[1]), "%s: variables %s, the library's %s", what, list(x[1]), list(y[1]))
    check(x[2] == y[2] and x[3] == y[3], "%s: attributes or dimensions of variables differ", what)
    for k, u in x[1].items():
        w = y[1][k]
        check(u.shape == w.shape and u.dtype == w.dtype, "%s: %s has another shape or type", what, k)
        if exact or u.dtype.kind == "i":
            check(np.array_equal(u, w, equal_nan=u.dtype.kind == "f"), "%s: %s: %s", what, k, describe(u, w))
        else:
            tol = 1e-12 * np.max(np.abs(w), initial=0)
            if k.startswith(("pmn", "bmn", "rmn", "zmn", "gmn")):
                tol = max(tol, 1e-13)
            check(bool(np.all(np.abs(u - w) <= tol)), "%s: %s: %s", what, k, describe(u, w))


def run(case, ctx):
    d = ctx.path("d")
    os.makedirs(d, exist_ok=True)
    for x in os.listdir(d):
        if not os.path.isdir(os.path.join(d, x)):
            os.unlink(os.path.join(d, x))
    old = os.getcwd()
    try:
        os.chdir(d)
        return inside(case, ctx, d)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def inside(case, ctx, d):
    cfg = case["cfg"]
    v = vm.build(cfg)
    ns, fault, r = v["ns"], case["fault"], case["r"]
    wout, out, ref = "wout_%s.nc" % case["ext"], "boozmn_%s.nc" % case["ext"], "ref.nc"
    if fault != "nowout":
        vm.write_wout(wout, v)
    if fault == "badwout":
        data = open(wout, "rb").read()
        open(wout, "wb").write(data[:r % 300])
    mdef, ndef = 6 * v["mpol"], max(2 * v["ntor"] - 1, 0)
    mboz, nboz = mdef + case["dm"], ndef + case["dn"]
    if case["big"]:
        mboz = mdef + case["big"]
    if case["dm"] == -30:
        mboz = [0, -1, -2**31][r % 3]
    surfs = list(case["surfs"])
    toks = [mboz, nboz]
    F = case["fmt"]
    toks = [fmt(t, F[i % len(F)]) for i, t in enumerate(toks)] + [case["ext"]]
    bad_surf = []
    if fault == "surf":
        bad_surf = [[-1], [ns - 1], [ns], [-2**31], [2**31 - 1], [ns - 1, 0]][r % 6]
    if fault == "bigint":
        bad_surf = [[2**31], [-2**31 - 1], [10**30], [2**32], [2**64]][r % 5]
    pos = (r >> 4) % (len(surfs) + 1)
    surf_tokens = [fmt(s, F[(i + 2) % len(F)]) for i, s in enumerate(surfs)]
    surf_tokens[pos:pos] = [str(s) for s in bad_surf]
    toks += surf_tokens
    if case["stop"] is not None and fault not in ("short", "badres"):
        toks += [case["stop"], case["after"]]
    if fault == "short":
        toks = toks[:r % 3]
    if fault == "badres":
        toks[r % 2] = ["x", "1.5", "12abc", "1e1", "99999999999", "--3", "\u0663", "1_2"][(r >> 4) % 8]
    W = case["ws"]
    text = case["lead"] + "".join(t + (W[i % len(W)] if i < len(toks) - 1 else "") for i, t in enumerate(toks)) + case["trail"]
    if fault == "empty":
        text = ["", "\n", " "][r % 3]
    if fault == "nan":
        v2 = dict(v)
        vm.write_wout(wout, v2, drop=(["bmnc", "iotas", "xn", "lmns"][r % 4],))
    inp = "in_booz.x"                   # the input file may be elsewhere: the other files are in the current directory
    w = case.get("where", ".")
    if w != ".":
        for x in ("sub", "a b"):
            os.makedirs(x, exist_ok=True)
        inp = os.path.join({"abs": os.path.join(d, "sub")}.get(w, w), inp)
    open(inp, "wb").write(text.encode())
    must_fail = fault in ("short", "badres", "nowout", "badwout", "surf", "bigint", "noinput", "empty", "nan")
    usage = fault in ("args0", "args2")
    args = [inp]
    if fault == "noinput":
        args = [["nothing_here", ".", ""][r % 3]]
    if usage:
        args = [] if fault == "args0" else [inp] * (2 + r % 2)
    ran_ok = not must_fail and not usage
    if ran_ok:
        b = ctx.bx.Booz_xform()
        b.verbose = 0
        b.read_wout(wout)
        b.mboz, b.nboz = max(mdef, mboz), max(ndef, nboz)
        if surfs:
            b.compute_surfs = sorted(surfs)
        b.run()
        b.write_boozmn(ref)
    before = set(os.listdir("."))
    stale = b"stale " * 50

    def prepare():
        if os.path.exists(out):
            os.unlink(out)
        if case["stale"]:
            open(out, "wb").write(stale)

    def judge(what, failed, detail, stdout):
        now = set(os.listdir(".")) - {out, "stdout.txt"}
        for x in ("sub", "a b"):
            if os.path.isdir(x):
                check(set(os.listdir(x)) <= {"in_booz.x"}, "%s wrote files beside the input file: %s", what, os.listdir(x))
        check(now == before - {out}, "%s left unexpected files: %s", what, sorted(now ^ (before - {out})))
        if ran_ok:
            check(not failed, "%s failed: %s\ninput file: %r", what, detail, text)
            check(os.path.exists(out), "%s wrote no %s", what, out)
            same_file(out, ref, what, exact=what.startswith("Python"))
            return
        if usage:
            check(not failed and "Usage" in stdout and "inputfile" in stdout, "%s with %d arguments: %s, printed %r", what, len(args), detail, stdout[:200])
        else:
            check(failed, "%s ended normally with fault '%s'; input file: %r", what, fault, text)
        if case["stale"]:
            check(os.path.exists(out) and open(out, "rb").read() == stale, "%s with fault '%s' changed the output file", what, fault)
        else:
            check(not os.path.exists(out), "%s with fault '%s' wrote an output file", what, fault)

    # Python
    import importlib
    ctx.bx
    cli = importlib.import_module("booz_xform._cli")
    prepare()
    if case["own"]:
        p = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path.insert(0, %r); from booz_xform._cli import main; sys.exit(main())" % ctx.site]
                           + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        check(p.returncode >= 0, "the Python driver was killed by signal %d", -p.returncode)
        judge("Python driver (own process)", p.returncode != 0, p.stderr.decode(errors="replace")[-500:], p.stdout.decode(errors="replace"))
    else:
        keep = sys.stdout
        detail, failed = "", False
        try:
            with quiet_fd("stdout.txt"):
                sys.stdout = os.fdopen(os.dup(1), "w")
                try:
                    rc = cli.main(args)
                    failed = bool(rc)
                    detail = "returned %r" % rc
                except SystemExit as e:
                    failed, detail = bool(e.code), "exit %r" % (e.code,)
                except Exception as e:
                    failed, detail = True, "%s: %s" % (type(e).__name__, e)
                finally:
                    sys.stdout.close()
                    sys.stdout = keep
        finally:
            sys.stdout = keep
        judge("Python driver", failed, detail, open("stdout.txt", errors="replace").read())
        os.unlink("stdout.txt")
    # C++
    prepare()
    p = subprocess.run([ctx.exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100,
                       env=dict(os.environ, OMP_NUM_THREADS=str(case["threads"])))
    check(p.returncode != -11, "the C++ driver crashed")
    judge("C++ driver", p.returncode != 0, "status %d %s" % (p.returncode, p.stderr.decode(errors="replace")[-500:]), p.stdout.decode(errors="replace"))
    return {"nontrivial": bool(case["surfs"]) or fault is not None,
            "tags": ["fault " + fault if fault else "valid"] + (["stop token"] if case["stop"] else []) + (["own process"] if case["own"] else [])
            + (["mboz above default"] if mboz > mdef else ["default mboz"]) + (["unsorted"] if surfs != sorted(surfs) else [])}
