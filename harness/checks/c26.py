"""C26: the C++ class used directly, built with and without OpenMP, against the Python package."""
import os
import subprocess
import types
import numpy as np
from hypothesis import strategies as st
import build
import cdf
import gen
import vm
from bx import check, close, snap, same, describe, set_attrs, value_same, Violation, ALL, INPUTS, OUTPUTS
from checks import c01
from native import write_items, read_items

ID = "C26"
BUDGET = {"quick": 3200, "thorough": 48000}
LIMIT_AS = False
CASE_LIMIT = 200
RULE = ("random configuration assigned, given to init_from_vmec, or read from a wout file (with, without, or with the default choice of flux "
        "data), resolution and surfaces set, run once or twice, written, and read back, by a C++ program linked with the library sources "
        "(clang++ without OpenMP, or g++ with OpenMP and 1 to 5 threads) and by the Python package; attributes are compared after every step "
        "(read from the same boozmn file: bitwise; else to rounding), spectra also with the reference, and the two boozmn files with each "
        "other. Calls that fail must fail in both with the same message. Non-trivial: mnboz > 1 and more than one input mode")
ASSUMPTIONS = ["builds with other compilers round differently: agreement to rounding error, not bitwise, for computed numbers"]


def BUILDS():
    src = [os.path.join(build.HERE, "native", "cxx.cpp")]
    out = {"VERIF_CXX_OMP": build.native("cxxomp", "/usr/bin/g++", ["-O2", "-fopenmp", "-DOPENMP"], ["-fopenmp"], src)}
    try:
        out["VERIF_CXX_SERIAL"] = build.native("cxxserial", "/usr/bin/clang++", ["-O1", "-ffp-contract=off"], [], src)
    except build.BuildError as e:           # the documentation asks for a C++ compiler, not for this one
        print("note: clang++ cannot build the library, g++ without OpenMP is used: %s" % str(e)[-200:])
        out["VERIF_CXX_SERIAL"] = build.native("cxxserialg", "/usr/bin/g++", ["-O1"], [], src)
    return out


@st.composite
def _s(draw):
    kind = draw(st.sampled_from(["assign", "vmec", "wout", "wout"]))
    if kind == "assign":
        c = draw(gen.run_case(max_ns=4, max_m=3, max_n=2))
        ns = c["cfg"]["ns"]
    else:
        c = {"cfg": draw(vm.vmec(max_ns=6, max_m=3))}
        ns = c["cfg"]["ns"] - 1
        c["surfs"] = draw(gen.surfaces(ns))[:4]
        r = draw(gen.resolution(6, 4, big=False))
        c["mboz"], c["nboz"] = r["mboz"], r["nboz"]
    c["kind"] = kind
    c["flux"] = draw(st.sampled_from([0, 1, 2]))
    c["prog"] = draw(st.sampled_from(["SERIAL", "OMP", "OMP"]))
    c["threads"] = draw(st.integers(1, 5))
    c["verbose"] = draw(st.sampled_from([0, 0, 1]))
    c["defaults"] = draw(st.integers(0, 9)) == 7 and kind != "assign" and ns <= 3 and max(m for m, _ in c["cfg"]["modes"]) <= 3 and \
        max(abs(n) for _, n in c["cfg"]["modes"]) <= 2
    c["twice"] = draw(st.booleans())
    c["copy"] = draw(st.sampled_from([0] * 4 + [1, 2, 3]))
    c["bad"] = draw(st.sampled_from([None] * 8 + ["surf", "missing", "early", "iotas"]))
    return c


def strategy(tier):
    return _s()


def call(log, f):
    try:
        f()
        log.append(None)
    except Violation:
        raise
    except Exception as e:
        log.append(str(e))


def norm(b):
    d = snap(b, ALL)
    d["asym"] = bool(d["asym"])
    return d


def run(case, ctx):
    kind, flux = case["kind"], case["flux"]
    P = ctx.path
    items, ops, log = {}, [], []
    b = ctx.bx.Booz_xform()
    b.verbose = 0
    ops.append("set verbose 0")
    log.append(None)
    states, dumps = [], []

    def step(op, f):
        ops.append(op)
        call(log, f)
        dumps.append(P("dump_%d" % len(states)))
        states.append(norm(b))
        ops.append("dump " + dumps[-1])
        log.append(None)
    step("dump " + P("dump_x"), lambda: None)      # a new object
    if case["bad"] == "early":
        step("write " + P("early.nc"), lambda: b.write_boozmn(P("early.nc")))
        step("run", b.run)
    if case["bad"] == "missing":
        step("wout %s 1" % P("none.nc"), lambda: b.read_wout(P("none.nc"), True))
    if kind == "assign":
        a = gen.materialize(case["cfg"])
        items.update(a)
        step("assign", lambda: set_attrs(b, a))
    else:
        v = vm.build(case["cfg"])
        if case["bad"] == "iotas":
            v = dict(v, iotas=v["iotas"][:-1])
        if kind == "vmec":
            for k, x in v.items():
                items["v_" + k] = x
            step("vmec %d" % bool(flux == 1), lambda: vm.call(b, v, flux == 1))
        else:
            vm.write_wout(P("wout_x.nc"), v)
            step("wout %s %d" % (P("wout_x.nc"), flux), (lambda: b.read_wout(P("wout_x.nc"))) if flux == 2 else
                 (lambda: b.read_wout(P("wout_x.nc"), bool(flux))))
    broken = log[-2] is not None
    check(broken == (case["bad"] == "iotas" and kind != "assign"), "loading: %s", log[-2])
    if broken:
        states.pop()        # what is in the object after a failed call is unspecified
        dumps.pop()
    if not broken:
        if not case["defaults"]:
            step("set mboz %d" % case["mboz"], lambda: setattr(b, "mboz", case["mboz"]))
            step("set nboz %d" % case["nboz"], lambda: setattr(b, "nboz", case["nboz"]))
            items["set_surfs"] = np.array([b.ns_in] if case["bad"] == "surf" else case["surfs"])
            step("set surfs", lambda: setattr(b, "compute_surfs", items["set_surfs"]))
        if case.get("copy", 0) & 1:
            step("copy %d" % case["flux"], lambda: None)
        possible = b.mboz >= 1          # the default is 6 * mpol
        for _ in range(2 if case["twice"] else 1):
            step("run", b.run)
        ran = log[-2] is None
        check(ran == (possible and (case["bad"] != "surf" or case["defaults"])), "run: %s", log[-2])
    else:
        ran = False
    if case.get("copy", 0) & 2:
        step("copy %d" % case["flux"], lambda: None)
    if ran:
        ops.append("write " + P("c.nc"))
        call(log, lambda: b.write_boozmn(P("p.nc")))
        states.append(norm(b))
        dumps.append(P("dump_w"))
        ops.append("dump " + P("dump_w"))
        log.append(None)
    if case["verbose"]:
        i = len(ops) - 1 - ops[::-1].index("run") if "run" in ops else len(ops)
        ops.insert(i, "set verbose 1")
        log.insert(i, None)
    write_items(P("items.bin"), dict(items, ops="\n".join(ops)))
    env = dict(os.environ, OMP_NUM_THREADS=str(case["threads"]))
    r = subprocess.run([os.environ["VERIF_CXX_" + case["prog"]], P("items.bin")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=150)
    said = r.stderr.decode(errors="replace").split("\n")[:-1]
    check(r.returncode == 0, "the C++ program ended with status %d after %s", r.returncode, said[-3:])
    mine = ["ok" if e is None else "error " + e.replace(P("p.nc"), P("c.nc")) for e in log]
    said = "\n".join(said).replace("\nok", "\x00ok").replace("\nerror ", "\x00error ").split("\x00")
    check(len(said) == len(mine), "C++ %s, Python %s", said, mine)
    for o, x, y in zip(ops, said, mine):
        check(x == y, "operation %r: C++ says %r, Python %r", o, x[:300], y[:300])
    check(case["verbose"] == 1 or not r.stdout or any(log), "the C++ program printed %r with verbose=0", r.stdout[:200])
    if case["verbose"] and ran:
        check(len(r.stdout) > 0, "nothing was printed with verbose=1")

    def compare(x, y, what, exact=False):
        for k in ALL:
            u, w = x[k], y[k]
            if k == "asym":
                check(bool(u) == bool(w), "%s: asym is %r in C++, %r in Python", what, u, w)
            elif isinstance(w, np.ndarray):
                check(np.shape(u) == w.shape or np.size(u) == 0 == w.size, "%s: %s has shape %s in C++, %s in Python", what, k, np.shape(u), w.shape)
                if w.size == 0:
                    continue
                if exact or w.dtype.kind != "f" or k not in OUTPUTS + vm.FULL + ["s_in", "phip"]:
                    check(value_same(u, w), "%s: %s, C++ and Python: %s", what, k, describe(u, w))
                elif k not in c01.FIELD:
                    close(u, w, 1e-14 * np.max(np.abs(w)) * np.sqrt(w.shape[-1] + 1), "%s: %s (C++ against Python)" % (what, k))
            else:
                check(u == w, "%s: %s is %r in C++, %r in Python", what, k, u, w)
    final = None
    for n, (p, s) in enumerate(zip(dumps, states)):
        d = read_items(p)
        compare(d, s, "state %d" % n)
        final = d
    if ran:
        inp = {k: states[-1][k] for k in INPUTS}
        cs = {"mboz": b.mboz, "nboz": b.nboz, "surfs": [int(j) for j in inp["compute_surfs"]]}
        if cs["mboz"] * (2 * cs["nboz"] + 1) > 150:
            cs = None
        for o, what in ((types.SimpleNamespace(**final), "C++: "), (b, "Python: ")):
            if cs:
                c01.compare(o, inp, cs, what)
        from scipy.io import netcdf_file
        f, g = netcdf_file(P("c.nc"), mmap=False), netcdf_file(P("p.nc"), mmap=False)
        check(f.dimensions == g.dimensions and list(f.variables) == list(g.variables), "the files have different dimensions or variables")
        check(f._attributes.keys() == g._attributes.keys(), "the files have different attributes")
        for k in f.variables:
            x, y = f.variables[k], g.variables[k]
            check(x.dimensions == y.dimensions and x.typecode() == y.typecode() and x._attributes == y._attributes, "%s is not the same kind of variable", k)
            if x.typecode() == "d":
                amp = np.max(np.abs(y.data), initial=0)
                close(x.data, y.data, 1e-8 * amp, "variable %s of the C++ file against Python's" % k)
            elif k != "version":
                check(np.array_equal(x.data, y.data), "variable %s of the C++ file differs from Python's", k)
        # each reads the other's file; both read one file
        ops = ["set verbose 0", "boozmn " + P("p.nc"), "dump " + P("dump_p"), "boozmn " + P("c.nc"), "dump " + P("dump_c")]
        write_items(P("items.bin"), {"ops": "\n".join(ops)})
        r = subprocess.run([os.environ["VERIF_CXX_" + case["prog"]], P("items.bin")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=150)
        check(r.returncode == 0 and r.stderr == b"ok\n" * 5, "reading the boozmn files in C++: %d %s", r.returncode, r.stderr[-300:])
        for q in "pc":
            h = ctx.bx.Booz_xform()
            h.verbose = 0
            h.read_boozmn(P(q + ".nc"))
            compare(read_items(P("dump_" + q)), norm(h), "the boozmn file written by " + {"p": "Python", "c": "C++"}[q], exact=q == "p")
    return {"nontrivial": ran and b.mnboz > 1 and len(case["cfg"]["modes"]) > 1,
            "tags": [kind, case["prog"]] + (gen.cfg_tags(case["cfg"]) if kind == "assign" else vm.tags(case["cfg"]))
            + (["fails: " + case["bad"]] if case["bad"] else [])}
