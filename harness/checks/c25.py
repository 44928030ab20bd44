"""C25: several objects in one process are independent of each other."""
import os
import pickle
import struct
import subprocess
import sys
import numpy as np
from hypothesis import strategies as st
import build
import gen
import vm
from bx import check, snap, same, describe, quiet_fd, ALL, Violation
from checks.c11 import EDIT, direct
from native import write_items

ID = "C25"
BUDGET = {"quick": 2000, "thorough": 30000}
LIMIT_AS = False       # ThreadSanitizer reserves address space
CASE_LIMIT = 200
RULE = ("part A: two or three objects, each with a program of loads, attribute changes, runs, writes, reads and failing calls, interleaved at "
        "random (one object's arrays may be given to another); after every operation all attributes of the object, the printed text and the "
        "files must be bitwise those of the same program alone in a new process. Part B: C++ objects run in one std thread each at the same "
        "time under ThreadSanitizer, and copies of objects, against runs alone. Non-trivial: runs of at least two objects, with another "
        "object's operation between the operations of one")
ASSUMPTIONS = ["concurrent calls are judged with verbose=0: std::cout's formatting state is shared by design",
               "file operations are not made concurrently: libnetcdf is not thread-safe"]
ENV = {"TSAN_OPTIONS": "halt_on_error=0 exitcode=66 report_signal_unsafe=0 history_size=4 second_deadlock_stack=0"}


def BUILDS():
    p = build.native("tsanobj", "/usr/bin/g++", ["-O1", "-g", "-fsanitize=thread", "-DNDEBUG"], ["-fsanitize=thread", "-lpthread"],
                     [os.path.join(build.HERE, "native", "objects.cpp")])
    return {"VERIF_TSANOBJ": p}


@st.composite
def _s(draw):
    if draw(st.integers(0, 9)) == 7:
        cs = [draw(gen.run_case(max_ns=4, max_m=2, max_n=2, wide=False)) for _ in range(draw(st.integers(2, 5)))]
        for c in cs:
            c["mboz"], c["nboz"] = draw(st.integers(1, 6)), draw(st.integers(0, 3))
            c["rounds"] = draw(st.integers(1, 4))
        if draw(st.booleans()):         # the same sizes
            for c in cs[1:]:
                c.update(mboz=cs[0]["mboz"], nboz=cs[0]["nboz"])
        return {"kind": "B", "objs": cs}
    eqs = [draw(vm.vmec(max_ns=5, max_m=2, max_n=2, wide=False)) for _ in range(draw(st.sampled_from([1, 2, 2, 3])))]
    eq = st.integers(0, len(eqs) - 1)
    r16 = st.integers(0, 2**16)
    K = draw(st.sampled_from([2, 2, 2, 3]))
    load = st.one_of(st.tuples(st.just("wout"), eq, st.booleans()), st.tuples(st.just("vmec"), eq, st.booleans()), st.tuples(st.just("direct"), eq))
    run = st.tuples(st.just("run"), st.sampled_from([0, 0, 1, 1, 2]))
    res = st.tuples(st.just("res"), st.integers(1, 6), st.integers(0, 4))
    surfs = st.tuples(st.just("surfs"), r16)
    op = st.one_of(load, run, run, run, res, surfs, st.tuples(st.just("write")), st.tuples(st.just("read"), r16),
                   st.tuples(st.just("edit"), r16), st.tuples(st.just("new")), st.tuples(st.just("give"), r16, st.integers(0, K - 1)),
                   st.tuples(st.just("bad"), st.sampled_from(["missing", "surf", "writedir"])))
    same_res = draw(st.one_of(st.none(), res))
    progs = []
    for _ in range(K):
        p = [list(draw(load))] + [list(draw(same_res and st.just(same_res) or res))] + [list(o) for o in draw(st.lists(op, max_size=5))]
        progs.append(p + [list(draw(run))])
    order = draw(st.permutations([i for i, p in enumerate(progs) for _ in p]))
    return {"kind": "A", "eqs": eqs, "progs": progs, "order": list(order)}


def strategy(tier):
    return _s()


class World:
    """The data of a case and the operations on one object; each object has files of its own."""

    def __init__(self, case, bx, tmp):
        self.case, self.bx, self.tmp = case, bx, tmp
        self.v = [vm.build(c) for c in case["eqs"]]

    def fresh(self):
        b = self.bx.Booz_xform()
        b.verbose = 0
        return b

    def apply(self, b, k, op, gift=None):
        """Returns the object and what was observed."""
        out, err, data = os.path.join(self.tmp, "text"), None, b""
        mine = os.path.join(self.tmp, "boozmn_object_%d.nc" % k)
        kind = op[0]
        b.verbose = op[1] if kind == "run" else 0
        with quiet_fd(out):
            try:
                if kind == "wout":
                    b.read_wout(os.path.join(self.tmp, "wout_%d.nc" % op[1]), op[2])
                elif kind == "vmec":
                    vm.call(b, self.v[op[1]], op[2])
                elif kind == "direct":
                    direct(b, self.v[op[1]])
                elif kind == "run":
                    b.run()
                elif kind == "write":
                    b.write_boozmn(mine)
                    data = open(mine, "rb").read()
                elif kind == "read":
                    if os.path.exists(mine):
                        b.read_boozmn(mine)
                elif kind == "res":
                    b.mboz, b.nboz = op[1], op[2]
                elif kind == "surfs":
                    n = max(b.ns_in, 1)
                    b.compute_surfs = [(op[1] >> j) % n for j in range(1 + (op[1] >> 9) % 4)]
                elif kind == "edit":
                    name = EDIT[op[1] % len(EDIT)]
                    x = np.array(getattr(b, name))
                    if x.size:
                        x.flat[(op[1] >> 4) % x.size] *= 1.01
                        setattr(b, name, x)
                elif kind == "give":
                    setattr(b, EDIT[op[1] % len(EDIT)], gift)
                elif kind == "new":
                    b = self.fresh()
                elif kind == "bad":
                    if op[1] == "missing":
                        b.read_wout(os.path.join(self.tmp, "does_not_exist.nc"))
                    elif op[1] == "surf":
                        old = np.array(b.compute_surfs)
                        b.compute_surfs = [max(b.ns_in, 0)]
                        try:
                            b.run()
                        finally:
                            b.compute_surfs = old
                    else:
                        b.write_boozmn(os.path.join(self.tmp, "no_such_directory", "x.nc"))
            except Exception as e:
                err = type(e).__name__ + ": " + str(e)
        return b, (err, open(out, "rb").read(), data, snap(b, ALL))

    def clean(self):
        for k in range(len(self.case["progs"])):
            p = os.path.join(self.tmp, "boozmn_object_%d.nc" % k)
            if os.path.exists(p):
                os.unlink(p)


def alone(job):
    """One object's program, nothing else."""
    case, k, gifts, bx, tmp = job
    W = World(case, bx, tmp)
    b = W.fresh()
    log = []
    for pos, op in enumerate(case["progs"][k]):
        b, seen = W.apply(b, k, op, gifts.get(pos))
        log.append(seen)
    log.append(snap(b, ALL))
    return log


def _send(fd, x):
    d = pickle.dumps(x)
    d = struct.pack("<q", len(d)) + d
    while d:
        d = d[os.write(fd, d[:1 << 16]):]


def _recv(fd):
    def n(k):
        b = b""
        while len(b) < k:
            x = os.read(fd, min(k - len(b), 1 << 16))
            if not x:
                raise EOFError
            b += x
        return b
    return pickle.loads(n(struct.unpack("<q", n(8))[0]))


def setup(ctx):
    """A process in which no object has ever been made; it forks one child per request."""
    bx = ctx.bx
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        try:
            os.close(w1)
            os.close(r2)
            while True:
                case, k, gifts, tmp = _recv(r1)
                pid = os.fork()
                if pid == 0:
                    try:
                        res = ("ok", alone((case, k, gifts, bx, tmp)))
                    except BaseException as e:
                        res = ("failed", "%s: %s" % (type(e).__name__, e))
                    _send(w2, res)
                    os._exit(0)
                _, status = os.waitpid(pid, 0)
                if status:
                    _send(w2, ("failed", "the process ended with status %d" % status))
        except BaseException:
            pass
        os._exit(0)
    os.close(r1)
    os.close(w2)
    ctx.store["zygote"] = (w1, r2)


def same_log(x, y, what):
    for n, i in (("outcome", 0), ("printed text", 1), ("file", 2)):
        check(x[i] == y[i], "%s: the %s differs: %r, alone %r", what, n, x[i][-300:] if x[i] else x[i], y[i][-300:] if y[i] else y[i])
    same_state(x[3], y[3], what)


def same_state(x, y, what):
    for k in ALL:
        check(same(x[k], y[k]), "%s: %s is not what it is when the object is alone: %s", what, k, describe(x[k], y[k]))


def part_a(case, ctx):
    W = World(case, ctx.bx, ctx.tmp)
    for i, v in enumerate(W.v):
        vm.write_wout(ctx.path("wout_%d.nc" % i), v)
    K = len(case["progs"])
    objs = [W.fresh() for _ in range(K)]
    logs, gifts = [[] for _ in range(K)], [{} for _ in range(K)]
    switches = 0
    last = None
    for k in case["order"]:
        pos = len(logs[k])
        op = case["progs"][k][pos]
        gift = None
        if op[0] == "give":
            gift = getattr(objs[op[2]], EDIT[op[1] % len(EDIT)])
            gifts[k][pos] = np.array(gift)
        objs[k], seen = W.apply(objs[k], k, op, gift)
        logs[k].append(seen)
        switches += last is not None and last != k
        last = k
    final = [snap(b, ALL) for b in objs]
    W.clean()
    del objs
    w, r = ctx.store["zygote"]
    for k in range(K):
        _send(w, (case, k, gifts[k], ctx.tmp))
        state, log = _recv(r)
        W.clean()
        check(state == "ok", "the program of object %d alone: %s", k, log)
        for pos, op in enumerate(case["progs"][k]):
            same_log(logs[k][pos], log[pos], "object %d, operation %d %s" % (k, pos, op))
        same_state(final[k], log[-1], "object %d at the end" % k)
    return switches >= K and all(any(o[0] == "run" for o in p) for p in case["progs"]), []


def part_b(case, ctx):
    paths = []
    for i, c in enumerate(case["objs"]):
        d = dict(gen.materialize(c["cfg"]))
        d.update(mboz=c["mboz"], nboz=c["nboz"], compute_surfs=np.array(c["surfs"]), rounds=c["rounds"], verbose=0)
        paths.append(ctx.path("items_%d.bin" % i))
        write_items(paths[-1], d)
    out = ctx.path("objects.out")
    cmd = [os.environ["VERIF_TSANOBJ"], out] + paths
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150)
    err = r.stderr.decode(errors="replace")
    if "unexpected memory mapping" in err or "FATAL: ThreadSanitizer" in err:
        r = subprocess.run(["setarch", "-R"] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150)
        err = r.stderr.decode(errors="replace")
        if "FATAL: ThreadSanitizer" in err:
            return False, ["ThreadSanitizer cannot start here"]
    check("WARNING: ThreadSanitizer" not in err, "ThreadSanitizer, objects in threads of their own: %s", err[:2500])
    data = open(out, "rb").read().decode(errors="replace") if os.path.exists(out) else ""
    check("DIFF" not in data, "%s", data[:1500])
    check(r.returncode == 0 and data.endswith("END\n"), "the program ended with status %d: %s", r.returncode, err[-1500:])
    return True, []


def run(case, ctx):
    ok, tags = (part_a if case["kind"] == "A" else part_b)(case, ctx)
    if case["kind"] == "A":
        tags += sorted(set("op " + o[0] for p in case["progs"] for o in p)) + ["%d objects" % len(case["progs"])]
    return {"nontrivial": ok, "tags": tags + ["part " + case["kind"]]}
