"""C10: thread counts and schedules."""
import ctypes
import os
import re
import subprocess
import numpy as np
from hypothesis import strategies as st
import build
import gen
from bx import check, snap, same, describe, loaded, quiet_fd, Violation, OUTPUTS
from native import write_items

ID = "C10"
BUDGET = {"quick": 1600, "thorough": 24000}
LIMIT_AS = False       # ThreadSanitizer reserves address space
CASE_LIMIT = 200
REPLAY_TRIES = 25


def CERTAIN(msg):
    """Seen once, these are violations: nothing but the schedule can make two runs of one case differ."""
    return "from the one-thread run" in msg or "ThreadSanitizer: WARNING" in msg or "WARNING: ThreadSanitizer" in msg


RULE = ("random configuration with up to 24 surfaces, symmetric or not. Part A: the package itself with 1 and several of 2..24 OpenMP "
        "threads (libgomp), fresh and reused objects, verbose 0 and 1, outputs bitwise equal to the one-thread run. Part B: the library "
        "sources with ThreadSanitizer on a stand-in OpenMP runtime whose thread count, chunk assignment and delays are drawn from a seed, "
        "several schedules per case. Printed reports are cut into blocks, which must be whole and, thread number aside, those of the "
        "one-thread run. Non-trivial: at least two surfaces on at least two threads")
ASSUMPTIONS = ["races are looked for with verbose <= 1: the documented debugging output of verbose=2 is not synchronised",
               "part B uses g++'s own OpenMP lowering; constructs whose runtime entry points the stand-in lacks fail to link, and part B is "
               "then left out (see classes)"]
BASE_ENV = {"TSAN_OPTIONS": "halt_on_error=0 exitcode=66 report_signal_unsafe=0 history_size=4 second_deadlock_stack=0"}
ENV = BASE_ENV
NAT = os.path.join(build.HERE, "native")


def BUILDS():
    try:
        p = build.native("tsan", "/usr/bin/g++", ["-O1", "-g", "-fsanitize=thread", "-fopenmp", "-DOPENMP", "-DNDEBUG"],
                         ["-fsanitize=thread", "-lpthread"], [os.path.join(NAT, "gomp_shim.cpp"), os.path.join(NAT, "threads.cpp")])
    except build.BuildError as e:
        print("note: part B is not available: %s" % str(e)[-300:])
        p = ""
    return {"VERIF_TSAN": p}


@st.composite
def _s(draw):
    kind = draw(st.sampled_from("AAAAAAAB"))
    small = kind == "B"
    c = draw(gen.run_case(max_ns=12, max_m=2 if small else 3, max_n=2, wide=not small))
    c["kind"] = kind
    ns = c["cfg"]["ns"]
    if draw(st.integers(0, 3)):
        c["surfs"] = draw(st.lists(st.integers(0, ns - 1), min_size=2, max_size=24 if small else draw(st.sampled_from([12, 24, 90]))))
    c["mboz"], c["nboz"] = draw(st.integers(1, 5 if small else 8)), draw(st.integers(0, 3 if small else 4))
    T = st.one_of(st.integers(2, 24), st.integers(2, 24), st.integers(25, 70))
    if kind == "A":
        c["plan"] = [[draw(T), draw(st.integers(0, 1)), draw(st.integers(0, 1))] for _ in range(draw(st.integers(2, 4)))]
    else:
        c["plan"] = [[draw(st.one_of(st.integers(2, 8), st.integers(2, 8), st.integers(9, 40))), draw(st.integers(0, 2**30)), draw(st.integers(0, 2)), draw(st.sampled_from([0, 1, 1, 1]))]
                     for _ in range(draw(st.integers(2, 6)))]
    return c


def strategy(tier):
    return _s()


def blocks(text, nb, what):
    """The report blocks of a run: what follows the ruler line, cut into nb equal blocks of lines."""
    lines = text.split("\n")
    k = [i for i, l in enumerate(lines) if l.startswith("-----")]
    check(len(k) == 1, "%s: no single table header was printed:\n%s", what, text[:600])
    body = lines[k[0] + 1:]
    check(body and body[-1] == "", "%s: the last line is not complete", what)
    body = body[:-1]
    check(len(body) % nb == 0, "%s: %d report lines for %d surfaces:\n%s", what, len(body), nb, text[:3000])
    n = len(body) // nb
    out = []
    for j in range(nb):
        b = body[n * j:n * j + n]
        m = re.match(r"\s*(\d+)(.*)$", b[0]) if n else None
        check(n == 0 or m is not None, "%s: a report does not start with a thread number: %r", what, b)
        out.append((int(m.group(1)) if m else 0, "\n".join([m.group(2) if m else ""] + b[1:])))
    return out


def same_text(t1, tn, nb, nthreads, what):
    a, b = blocks(t1, nb, "one thread"), blocks(tn, nb, what)
    check(sorted(x[1] for x in a) == sorted(x[1] for x in b), "%s: the reports are not those of the one-thread run:\n%s", what, tn[:3000])
    for t, _ in b:
        check(0 <= t < nthreads, "%s: thread number %d in the report", what, t)


def part_a(case, ctx, a):
    omp = ctx.store.get("omp")
    if omp is None:
        ctx.bx
        omp = ctx.store["omp"] = ctypes.CDLL("libgomp.so.1")
    out = ctx.path("stdout.txt")

    def go(b, threads, verbose):
        omp.omp_set_num_threads(threads)
        b.verbose = verbose
        try:
            with quiet_fd(out):
                b.run()
        finally:
            omp.omp_set_num_threads(1)
        return snap(b, OUTPUTS), open(out).read()
    args = (ctx.bx, a, case["mboz"], case["nboz"], case["surfs"])
    used = loaded(*args)
    ref, t1 = go(loaded(*args), 1, 1)
    for n, (T, v, reuse) in enumerate(case["plan"]):
        what = "run %d with %d threads, verbose %d" % (n, T, v)
        o, t = go(used if reuse else loaded(*args), T, v)
        for k in OUTPUTS:
            check(same(o[k], ref[k]), "%s: %s differs from the one-thread run: %s", what, k, describe(o[k], ref[k]))
        if v:
            same_text(t1, t, len(case["surfs"]), T, what)
        else:
            check(t == "", "%s printed %r", what, t[:200])


def part_b(case, ctx, a):
    prog = os.environ.get("VERIF_TSAN")
    if not prog:
        return "no part B"
    items, out = ctx.path("items.bin"), ctx.path("out.txt")
    d = {k: v for k, v in a.items()}
    d.update(mboz=case["mboz"], nboz=case["nboz"], compute_surfs=np.array(case["surfs"]))
    plan = [[1, 0, 0, 1]] + case["plan"]
    d["plan"] = np.array(plan).ravel()
    write_items(items, d)
    r = subprocess.run([prog, items, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150)
    err = r.stderr.decode(errors="replace")
    if "unexpected memory mapping" in err or "FATAL: ThreadSanitizer" in err:
        r = subprocess.run(["setarch", "-R", prog, items, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150)
        err = r.stderr.decode(errors="replace")
        if "FATAL: ThreadSanitizer" in err:
            return "ThreadSanitizer cannot start here"
    check("WARNING: ThreadSanitizer" not in err, "ThreadSanitizer: %s", err[:2500])
    data = open(out, "rb").read().decode(errors="replace") if os.path.exists(out) else ""
    diffs = re.findall(r"^DIFF (\d+) (\w+)$", data, re.M)
    check(not diffs, "outputs differ from the one-thread run: %s with plan %s", diffs, plan)
    check(r.returncode == 0 and data.endswith("END\n"), "the program ended with status %d: %s", r.returncode, err[-1500:])
    texts = []
    pos = 0
    for k in range(len(plan)):
        m = re.compile(r"RUN (\d+) (\d+) (\d+)\n").match(data, pos)
        check(m is not None and int(m.group(1)) == k, "malformed output of the harness program")
        n, e = int(m.group(2)), int(m.group(3))
        texts.append(data[m.end():m.end() + n])
        check(e == 0, "run %d threw: %s", k, data[m.end() + n:m.end() + n + e])
        pos = m.end() + n + e + 1
    for k in range(1, len(plan)):
        what = "schedule %s" % (plan[k],)
        if plan[k][3]:
            same_text(texts[0], texts[k], len(case["surfs"]), plan[k][0], what)
        else:
            check(texts[k] == "", "%s printed %r", what, texts[k][:200])
    return "part B"


def run(case, ctx):
    a = gen.materialize(case["cfg"])
    if case["kind"] == "A":
        part_a(case, ctx, a)
        t = "part A"
    else:
        t = part_b(case, ctx, a)
    return {"nontrivial": len(case["surfs"]) > 1 and t.startswith("part"), "tags": gen.cfg_tags(case["cfg"]) + [t]
            + (["more threads than surfaces"] if max(p[0] for p in case["plan"]) > len(case["surfs"]) else [])}
