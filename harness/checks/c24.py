"""C24: memory safety of generated histories of library calls on consistent, inconsistent and malformed input."""
import os
import re
import shutil
import signal
import struct
import subprocess
import numpy as np
from hypothesis import strategies as st
import build
import cdf
import gen
import native
import nc4
import vm
from bx import check

ID = "C24"
BUDGET = {"quick": 9000, "thorough": 120000}
LIMIT_AS = False
RULE = ("random histories of library calls (assign or init_from_vmec on consistent inputs of all sizes, sometimes with wrong shapes or extreme "
        "numbers; run, write, read back, copy, reuse) and wout/boozmn files (CDF-1/2/5, netCDF-4) with one to four mutations of header "
        "numbers, names, data, length or bytes, which are then read, run and written. Every case runs in its own process, built with "
        "AddressSanitizer and UBSan (int and float conversions included) and Eigen's assertions, a few per cent under valgrind memcheck, "
        "with checks that every buffer given to libnetcdf is addressable. No report, no signal, no abort. Non-trivial: the history "
        "contains at least one call that succeeded or a mutation")
ASSUMPTIONS = ["crashes inside libnetcdf/libhdf5 on corrupt files, with all buffers passed to them checked, are not attributed to this package",
               "a case that takes longer than the time limit is not judged"]
W = ["-Wl,--wrap=nc_%s" % k for k in ("get_var_double", "get_var_int", "put_var_double", "put_var_int", "put_var_text")]
NAT = os.path.join(build.HERE, "native")


def BUILDS():
    src = [os.path.join(NAT, "safety.cpp")]
    out = {"VERIF_SAFE_ASAN": build.native("asan", "/usr/bin/g++", ["-O1", "-g", "-fno-omit-frame-pointer",
                                           "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
                                           ["-fsanitize=address,undefined"] + W, src)}
    if shutil.which("valgrind") and os.path.exists("/usr/include/valgrind/memcheck.h"):
        out["VERIF_SAFE_MEM"] = build.native("memcheck", "/usr/bin/g++", ["-O1", "-g"], W + ["-Wl,--wrap=malloc"], src)
    return out


class Server:
    def __init__(self, cmd, env):
        self.cmd, self.env, self.p = cmd, env, None

    def start(self):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env)

    def run(self, case, err):
        self.start()
        self.p.stdin.write(("%s %s\n" % (case, err)).encode())
        self.p.stdin.flush()
        while True:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError("the harness program ended")
            m = re.match(rb"STATUS (-?\d+)\s*$", line)
            if m:
                return int(m.group(1))

    def stop(self):
        if self.p is not None:
            self.p.stdin.close()
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()


def setup(ctx):
    e = {k: v for k, v in os.environ.items() if k not in ("MALLOC_PERTURB_", "GLIBC_TUNABLES")}
    a = dict(e, ASAN_OPTIONS="allocator_may_return_null=1:max_allocation_size_mb=64:detect_leaks=0:alloc_dealloc_mismatch=0:malloc_fill_byte=190",
             UBSAN_OPTIONS="print_stacktrace=1")
    ctx.store["asan"] = Server([os.environ["VERIF_SAFE_ASAN"]], a)
    m = os.environ.get("VERIF_SAFE_MEM")
    ctx.store["mem"] = Server(["valgrind", "--tool=memcheck", "--quiet", "--num-callers=20", "--error-limit=no", "--leak-check=no", m], e) if m else None


def teardown(ctx):
    for k in ("asan", "mem"):
        if ctx.store.get(k):
            ctx.store[k].stop()


# ---------------------------------------------------------------- generation
INTS = [0, 1, 2, -1, 3, 7, 100, 4096, 65535, 2**20, 2**29, 2**30, 2**31 - 1, 2**31 - 2, 2**31, 2**31 + 1, 2**32 - 1, 2**32 - 2, 2**31 // 3]
SCAL = [0, -1, 1, 2, 2**31 - 1, -2**31, 2**30, 46341, 65536, 3, 100, -2]
XRES = [0, -1, 1, 2, 2**31 - 1, -2**31, 2**30, 2**29, 2**28, 2**28 - 1, 2**27, 2**26, -2, 3, 6, 2**24 + 1]     # tiny or too large for the memory limit
DBL = [float("nan"), float("inf"), -float("inf"), 0.0, -0.0, 1e308, -1e308, 5e-324, 1e300, 2.0**31, -2.0**31 - 1, 2.0**63, 0.5, -1.0, 1e18, 3.0]
OPS = ["run", "run", "run", "write", "write", "back", "backrun", "copy", "new", "res", "res", "surfs", "again", "verbose", "xres", "xsurfs", "xnfp"]
XNFP = [2**31 - 1, 2**31 - 1, 2**31 - 1, 2**30, 2**29, 2**28, 2**31 // 3, 2**31 // 6 + 1, 2**31 // 10 + 1, 65536, 1000003]
XN = [-2**31, -2**31, -2**31, 2**31 - 1, -2**31 + 1, -2**30, 2**30, -65536, 0]
FOPS = ["res run write", "run write", "write", "read again", "read other", "copy run", "res run write back", "back"]
MUT = ["int", "int", "int", "int", "dim", "name", "swap", "data", "data", "data", "fill", "fill", "bytes", "bytes", "cut", "grow", "type", "begin", "ints"]


@st.composite
def _s(draw):
    kind = draw(st.sampled_from(["api", "api", "file", "file", "file"]))
    c = {"kind": kind, "r": draw(st.integers(0, 2**24)), "mem": draw(st.integers(0, 49)) == 23,
         "mboz": draw(st.sampled_from([1, 1, 2, 3, 5])), "nboz": draw(st.sampled_from([0, 0, 1, 2, 3]))}
    w = draw(st.integers(0, 29))
    if w == 17:
        c["mboz"] = draw(st.integers(8, 60))
    elif w == 19:
        c["nboz"] = draw(st.integers(5, 40))
    if kind == "api":
        c["mode"] = draw(st.sampled_from(["direct", "direct", "vmec"]))
        c["cfg"] = draw(gen.config(max_ns=4, max_m=3, max_n=2)) if c["mode"] == "direct" else draw(vm.vmec(max_ns=5, max_m=2, max_n=2))
        c["flux"] = draw(st.booleans())
        c["devs"] = draw(st.lists(st.tuples(st.integers(0, 2**16), st.integers(0, 2**24)).map(list), max_size=3)) if draw(st.booleans()) else []
        c["ops"] = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 2**24)).map(list), min_size=1, max_size=7))
    else:
        c["op"] = draw(st.sampled_from(["wout", "wout", "boozmn"]))
        c["cfg"] = draw(vm.vmec(max_ns=4, max_m=2, max_n=1, wide=False))
        c["flux"] = draw(st.booleans())
        c["fmt"] = draw(st.sampled_from(["CDF-1", "CDF-1", "CDF-1", "CDF-2", "CDF-2", "CDF-5", "netCDF-4"]))
        c["muts"] = draw(st.lists(st.tuples(st.sampled_from(MUT), st.integers(0, 2**30), st.integers(0, 2**30)).map(list), min_size=0, max_size=4))
        c["ops"] = draw(st.lists(st.sampled_from(FOPS), min_size=0, max_size=3))
    return c


def strategy(tier):
    return _s()


def deviate(a, r1, r2, ns_key):
    """Change one attribute or argument to something inconsistent or extreme."""
    keys = sorted(a)
    k = keys[r1 % len(keys)]
    v = a[k]
    if isinstance(v, np.ndarray):
        how = r2 % 8
        if v.ndim == 2:
            a[k] = [lambda: np.vstack([v, v[:1]]), lambda: v[:-1], lambda: np.hstack([v, v[:, :1]]), lambda: v[:, :-1], lambda: v.T,
                    lambda: np.zeros((0, 0)), lambda: v[:0], lambda: extreme(v, r2)][how]()
        elif v.dtype.kind == "i":
            w = v.copy()
            if len(w):
                w[(r2 >> 3) % len(w)] = SCAL[(r2 >> 9) % len(SCAL)]
            a[k] = [lambda: v[:-1], lambda: np.append(v, 1), lambda: v[:0], lambda: w][how % 4]()
        else:
            a[k] = [lambda: v[:-1], lambda: np.append(v, 1.0), lambda: v[:0], lambda: extreme(v, r2)][how % 4]()
    elif isinstance(v, (bool, np.bool_)):
        a[k] = not v
    elif k in ("mboz", "nboz"):
        a[k] = XRES[(r2 >> 4) % len(XRES)]
    elif isinstance(v, (int, np.integer)):
        a[k] = [int(v) + 1, int(v) - 1, SCAL[(r2 >> 4) % len(SCAL)], SCAL[(r2 >> 4) % len(SCAL)]][r2 % 4]
    else:
        a[k] = DBL[r2 % len(DBL)]


def extreme(v, r):
    w = np.array(v, dtype=float)
    if w.size:
        w.flat[(r >> 3) % w.size] = DBL[(r >> 12) % len(DBL)]
    return w


def mutate(data, muts, other):
    """Apply mutations to the bytes of a classic file; structure is re-read before every one."""
    d = bytearray(data)
    tags = []
    for kind, r1, r2 in muts:
        try:
            h = cdf.Header(bytes(d)) if d[:3] == b"CDF" and d[3] in (1, 2) else None
        except Exception:
            h = None
        if h is None and kind not in ("bytes", "cut", "grow"):
            kind = "bytes"
        if kind in ("int", "dim"):
            F = h.fields if kind == "int" else [f for f in h.fields if f[2].startswith("dimlen")] or h.fields
            p, w, what = F[r1 % len(F)]
            old = int.from_bytes(d[p:p + w], "big")
            new = [INTS[(r2 >> 2) % len(INTS)], (old + 1) % 2**32, (old - 1) % 2**32, (old * 2) % 2**32][r2 % 4]
            d[p:p + w] = (new % 2**(8 * w)).to_bytes(w, "big")
        elif kind == "type":
            F = [f for f in h.fields if f[2].startswith("type")] or h.fields
            p, w, what = F[r1 % len(F)]
            d[p:p + w] = [1, 2, 3, 4, 5, 6, 7, 10, 12, 0][r2 % 10].to_bytes(w, "big")
        elif kind == "begin":
            F = [f for f in h.fields if f[2].startswith("begin")] or h.fields
            p, w, what = F[r1 % len(F)]
            q = F[r2 % len(F)][0]
            d[p:p + w] = d[q:q + w].rjust(w, b"\0")[:w]
        elif kind == "name":
            p, n, what = (h.names or [(0, 0, "")])[r1 % max(1, len(h.names))]
            if n:
                d[p + r2 % n] = [0, 32, 47, 65, 95, 98, 255, 105][(r2 >> 8) % 8]
        elif kind == "swap":
            p, n, _ = (h.names or [(0, 0, "")])[r1 % max(1, len(h.names))]
            same = [x for x in h.names if x[1] == n and x[0] != p]
            if same:
                q = same[r2 % len(same)][0]
                d[p:p + n], d[q:q + n] = d[q:q + n], d[p:p + n]
        elif kind in ("data", "fill", "ints"):
            V = [v for v in h.vars if v["type"] in (4, 5, 6) and v["begin"] < len(d)]
            if kind == "ints":
                V = [v for v in V if v["type"] == 4] or V
            if V:
                v = V[r1 % len(V)]
                w = 8 if v["type"] == 6 else 4
                n = max(1, min(v["vsize"], len(d) - v["begin"]) // w)
                idx = range(n) if kind == "fill" else [(r2 >> 5) % n]
                if v["type"] == 4:
                    x = struct.pack(">i", SCAL[(r2 >> 12) % len(SCAL)])
                elif v["type"] == 6:
                    x = struct.pack(">d", DBL[(r2 >> 12) % len(DBL)])
                else:
                    x = struct.pack(">f", [float("nan"), float("inf"), 1e38, 0.0][(r2 >> 12) % 4])
                for j in idx:
                    q = v["begin"] + w * j
                    if q + w <= len(d):
                        d[q:q + w] = x
        elif kind == "bytes":
            n = 1 + r2 % 4
            for j in range(n):
                if d:
                    # the first bytes (headers) are the most interesting ones
                    top = len(d) if (r2 >> 4) % 2 else min(len(d), 4096)
                    d[(r1 * (j + 1) + j) % top] = (r2 >> (5 + j)) & 255
        elif kind == "cut":
            d = d[:r1 % (len(d) + 1)]
        elif kind == "grow":
            d += (bytes(d[:r1 % (len(d) + 1)]) if r2 % 2 else b"\0" * (r1 % 5000))
        tags.append("mutation " + kind)
    return bytes(d), tags


def attributes(v):
    return {k: (max(-2**31, min(2**31 - 1, int(x))) if isinstance(x, (bool, np.bool_, int, np.integer)) else x) for k, x in v.items()}


def plan(case, ctx):
    """-> (steps, tags); writes the files the steps refer to."""
    P = ctx.path
    r = case["r"]
    steps, tags = [], []
    res = "res %d %d" % (case["mboz"], case["nboz"])
    if case["kind"] == "api":
        if case["mode"] == "direct":
            a = gen.materialize(case["cfg"])
            ns = a["ns_in"]
            a["compute_surfs"] = np.array([(r >> k) % ns for k in range(1 + r % (ns + 1))], dtype=np.int32)
            a["mboz"], a["nboz"] = case["mboz"], case["nboz"]
            first = "assign %s" % P("in")
        else:
            v = vm.build(case["cfg"])
            ns = v["ns"] - 1
            a = {k: v[k] for k in vm.SET}
            a["iotas"], a["ns"] = v["iotas"], v["ns"]
            for k in vm.ORDER + vm.FLUX:
                if k in v:
                    a["a_" + k] = v[k]
            first = "vmec %s %d" % (P("in"), case["flux"])
        for r1, r2 in case["devs"]:
            deviate(a, r1, r2, ns)
        native.write_items(P("in"), attributes(a))
        steps += ["verbose %d" % (r % 3), first]
        if case["mode"] == "vmec":
            steps.append(res)
        for op, q in case["ops"]:
            if op == "write":
                steps.append("write %s" % P("out.nc"))
            elif op in ("back", "backrun"):
                steps += ["write %s" % P("out.nc"), "read_boozmn %s" % P("out.nc")] + (["run"] if op == "backrun" else [])
            elif op == "res":
                m, n = 1 + q % 7, (q >> 4) % 5
                if (q >> 8) % 16 == 11:          # large in one direction
                    m, n = (8 + (q >> 12) % 50, n % 2) if (q >> 20) % 2 else (1 + m % 3, 5 + (q >> 12) % 36)
                steps.append("res %d %d" % (m, n))
            elif op == "xres":
                steps.append("res %d %d" % (XRES[q % len(XRES)], XRES[(q >> 4) % len(XRES)]))
            elif op == "xnfp":
                steps.append("nfp %d" % XNFP[q % len(XNFP)])
                steps += ["xn %d %d %d" % ((q >> (4 + k)) & 1, q >> (8 + 3 * k), XN[(q >> (4 + 5 * k)) % len(XN)]) for k in range((q >> 20) % 3)]
            elif op == "surfs":
                steps.append("surfs " + " ".join(str((q >> k) % ns) for k in range(q % 7)))
            elif op == "xsurfs":
                steps.append("surfs " + " ".join(str([-1, ns, 0, 2**31 - 1, -2**31, ns + 1, ns - 1][(q >> (3 * k)) % 7]) for k in range(q % 4)))
            elif op == "again":
                steps.append(first)
            elif op == "verbose":
                steps.append("verbose %d" % (q % 3))
            else:
                steps.append(op)
        tags += ["api " + case["mode"], "inconsistent or extreme" if case["devs"] else "consistent"]
    else:
        v = vm.build(case["cfg"])
        wout, booz = P("wout.nc"), P("booz.nc")
        ver = 2 if case["fmt"] == "CDF-2" else 1
        vm.write_wout(wout, v, version=ver)
        if case["op"] == "boozmn" or "read other" in case["ops"]:
            b = ctx.bx.Booz_xform()
            b.verbose = 0
            b.read_wout(wout, True)
            b.mboz, b.nboz = case["mboz"], case["nboz"]
            b.compute_surfs = [(r >> k) % b.ns_in for k in range(1 + r % 3)]
            b.run()
            b.write_boozmn(booz)
        src = wout if case["op"] == "wout" else booz
        if case["fmt"] in ("CDF-5", "netCDF-4"):
            nc4.convert(src, P("conv.nc"), case["fmt"])
            src = P("conv.nc")
        data, t = mutate(open(src, "rb").read(), case["muts"], None)
        tags += t + [case["op"] + " file", case["fmt"]]
        bad = P("bad.nc")
        with open(bad, "wb") as f:
            f.write(data)
        read = ("read_wout %d %s" % (case["flux"], bad)) if case["op"] == "wout" else "read_boozmn %s" % bad
        steps += ["verbose %d" % (r % 3), read]
        for op in case["ops"]:
            for w in op.replace("read again", "AGAIN").replace("read other", "OTHER").split():
                if w == "res":
                    steps.append(res)
                elif w == "write":
                    steps.append("write %s" % P("out.nc"))
                elif w == "back":
                    steps += ["write %s" % P("out.nc"), "read_boozmn %s" % P("out.nc")]
                elif w == "AGAIN":
                    steps.append(read)
                elif w == "OTHER":
                    steps.append("read_boozmn %s" % booz if case["op"] == "wout" else "read_wout 1 %s" % wout)
                else:
                    steps.append(w)
    return steps, tags


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ (?:in (.*?) )?\(?(\S+)", re.M)


def foreign(err):
    """The crash is in libnetcdf or below it (first frame outside the sanitizer runtime and libc)."""
    for line in re.findall(r"^\s*#\d+ 0x[0-9a-f]+ .*$", err, re.M):
        if any(x in line for x in ("libasan", "libubsan", "sanitizer", "libc.so", "interceptor", "/libc-", "ld-linux")):
            continue
        return any(x in line for x in ("libnetcdf", "libhdf5", "libz.so", "libsz", "libaec"))
    return False


def run(case, ctx):
    steps, tags = plan(case, ctx)
    native.write_items(ctx.path("case"), {"steps": "\n".join(steps) + "\n"})
    err = ctx.path("err.txt")
    mem = case["mem"] and ctx.store["mem"] is not None
    server = ctx.store["mem" if mem else "asan"]
    if os.path.exists(err):
        os.unlink(err)
    status = server.run(ctx.path("case"), err)
    text = open(err, errors="replace").read() if os.path.exists(err) else ""
    tags.append("memcheck" if mem else "ASan/UBSan")
    show = "steps:\n%s\n...\n%s" % ("\n".join(steps), text[-3500:])
    done = re.search(r"^done (\d+) steps, (\d+) exceptions", text, re.M)
    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
    code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else 0
    if sig == signal.SIGALRM or sig == signal.SIGKILL:
        return {"nontrivial": False, "tags": tags + ["time limit"]}
    if code == 77 and mem:
        # valgrind's own output goes to the server's stderr; run the case alone to get it
        p = subprocess.run(server.cmd[:1] + ["--log-file=" + ctx.path("vg.txt")] + server.cmd[1:] + [ctx.path("case")],
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=server.env, timeout=200)
        vg = open(ctx.path("vg.txt"), errors="replace").read()
        if "VERIF-" not in text and not own_error(vg):
            return {"nontrivial": False, "tags": tags + ["report in a library, not in the package"]}
        check(False, "memcheck reports an error (exit %d)\n%s\n%s", p.returncode, vg[:2500], show)
    bad = sig or code or "VERIF-" in text or done is None
    if bad and not mem and "VERIF-" not in text and foreign(text):
        return {"nontrivial": bool(case.get("muts")), "tags": tags + ["libnetcdf's own crash on a corrupt file"]}
    if bad and mem and sig and "VERIF-" not in text and case.get("muts"):
        return {"nontrivial": False, "tags": tags + ["crash under memcheck, not judged"]}
    check(not bad, "signal %d, exit status %d, %s\n%s", sig, code, summary(text), show)
    n, x = int(done.group(1)), int(done.group(2))
    return {"nontrivial": n > x or bool(case.get("muts")), "tags": tags + ["all calls succeeded" if x == 0 else "some calls raised"]}


def own_error(vg):
    """Some error is reported in the package or the templates it instantiates, not inside a library it calls."""
    for block in re.split(r"\n==\d+== *\n", vg):
        for line in re.findall(r"^==\d+==\s+(?:at|by) 0x.*$", block, re.M):
            if any(x in line for x in ("/libexec/valgrind/", "/libc.so", "/ld-linux")) or re.search(r"\((str|mem|wcs)\w+\.[cS]:|vg_replace", line):
                continue
            if "(in /" not in line:
                return True
            break
    return False


def summary(text):
    m = re.search(r"^(.*(?:runtime error|ERROR: AddressSanitizer|Assertion|VERIF-).*)$", text, re.M)
    return m.group(1)[:400] if m else "no report"
