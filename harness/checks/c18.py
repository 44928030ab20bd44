"""C18: failing file operations."""
import errno
import os
import resource
import numpy as np
from hypothesis import strategies as st
import cdf
import gen
import nc4
import vm
from bx import check, snap, same, describe, INPUTS, OUTPUTS
from checks import c11

ID = "C18"
BUDGET = {"quick": 4000, "thorough": 60000}
RULE = ("random equilibrium; a wout or boozmn file (CDF-1/2/5, netCDF-4) with one random fault: missing, a directory, below a regular file, empty, "
        "garbage, cut anywhere in the header or data, flipped magic number, a required variable or dimension missing, of wrong shape, rank or "
        "type, a size that contradicts the arrays, no permission, no free file descriptor; or a write that fails: file size limit anywhere "
        "below the full size, bad directory, no permission, no descriptor, nothing to write. The call must raise, leave no descriptor open, "
        "and afterwards load + run + write on the same object must be bitwise what a fresh object gives. Every truncation point, every "
        "size limit and every required variable of small files is enumerated. Non-trivial: the fault is effective")
ASSUMPTIONS = ["faults are injected from outside (file contents, RLIMIT_FSIZE, RLIMIT_NOFILE, effective uid); no write is done to device files",
               "netCDF-4 and CDF-5 files are made by libnetcdf itself from classic ones"]

WOUT_REQ = ["lasym__logical__", "ns", "nfp", "mpol", "ntor", "mnmax", "mnmax_nyq", "aspect", "xm", "xn", "xm_nyq", "xn_nyq", "iotas"]
WOUT_SYM = [k for k in vm.ORDER if k not in vm.ASYM_ONLY]
BOOZ_REQ = ["lasym__logical__", "nfp_b", "mboz_b", "nboz_b", "mnboz_b", "aspect_b", "ns_b", "ixm_b", "ixn_b", "iota_b", "bvco_b", "buco_b", "phi_b",
            "phip_b", "pres_b", "jlist"]
BOOZ_SYM = ["bmnc_b", "rmnc_b", "zmns_b", "pmns_b", "gmn_b"]
BOOZ_ASYM = ["bmns_b", "rmns_b", "zmnc_b", "pmnc_b", "gmns_b"]
READ = ["none", "missing", "directory", "underfile", "empty", "garbage", "cut_header", "cut_header", "cut_data", "magic", "drop", "drop", "drop",
        "shape", "shape", "shape", "shape", "rank", "char", "scalar", "range", "intsize", "permission", "nofile", "dropdim", "enotdir", "readonly"]
WRITE = ["none", "fsize", "fsize", "fsize", "fsize", "nodir", "underfile", "isdir", "permission", "nofile", "norun", "failedrun"]
FIXED = {"r": 0.2, "lam": 0.2, "w": 0.2, "b": 0.2, "decay": 1.0, "consistent": True, "seed": 7, "R0": 1.0, "B0": 1.0, "G": 1.0, "I": 0.1,
         "iota": 0.4, "extra": [1, 1, 1, 1], "table": "canonical", "extreme": 0}


@st.composite
def _s(draw):
    op = draw(st.sampled_from(["wout", "wout", "boozmn", "boozmn", "write"]))
    return {"op": op, "cfg": draw(vm.vmec(max_ns=5, max_m=2, max_n=2, wide=False)), "flux": draw(st.booleans()),
            "version": draw(st.sampled_from([1, 2])), "fmt": draw(st.sampled_from([None, None, None, "CDF-5", "netCDF-4", "netCDF-4 classic"])), "fault": draw(st.sampled_from(WRITE if op == "write" else READ)),
            "r": draw(st.integers(0, 2**24)), "state": draw(st.sampled_from(["fresh", "loaded", "ran", "read"])),
            "mboz": draw(st.integers(1, 5)), "nboz": draw(st.integers(0, 3)), "nsurf": draw(st.integers(1, 4))}


def strategy(tier):
    return _s()


def _corners():
    """Whole sweeps: every truncation point of a small wout and boozmn file, every size limit of a small boozmn file."""
    out = []
    for asym in (False, True):
        cfg = dict(FIXED, asym=asym, nfp=2, ns=3, modes=gen.canonical(1, 1), modes_nyq=gen.canonical(1, 1))
        base = {"cfg": cfg, "flux": True, "version": 1, "state": "loaded", "mboz": 2, "nboz": 1, "nsurf": 2}
        for op, fault, n in (("wout", "cut_header", 8), ("boozmn", "cut_header", 8), ("wout", "cut_data", 4), ("boozmn", "cut_data", 4),
                             ("write", "fsize", 8)):
            for part in range(n):
                out.append(dict(base, op=op, fault="sweep " + fault, r=part, parts=n))
        for op in ("wout", "boozmn"):
            for fault in ("drop", "char", "shape", "rank", "intsize"):
                out.append(dict(base, op=op, fault="all " + fault, r=0))
    return out


CORNERS = _corners()


def fds():
    out = []
    for x in os.listdir("/proc/self/fd"):
        try:
            out.append((int(x), os.readlink("/proc/self/fd/" + x)))
        except OSError:
            pass
    return sorted(out)


def load(bx, v, flux, b=None):
    if b is None:
        b = bx.Booz_xform()
        b.verbose = 0
    vm.call(b, v, flux)
    b.aspect = v["aspect"]
    return b


def setup_run(b, case):
    b.mboz, b.nboz = case["mboz"], case["nboz"]
    b.compute_surfs = [(case["r"] >> k) % b.ns_in for k in range(case["nsurf"])]


class limit:
    def __init__(self, which, soft):
        self.which, self.soft = which, soft

    def __enter__(self):
        self.old = resource.getrlimit(self.which)
        resource.setrlimit(self.which, (self.soft, self.old[1]))

    def __exit__(self, *e):
        resource.setrlimit(self.which, self.old)
        return False


class nobody:
    def __enter__(self):
        os.seteuid(65534)

    def __exit__(self, *e):
        os.seteuid(0)
        return False


def can_drop():
    if os.geteuid() != 0:
        return False
    try:
        os.seteuid(65534)
        os.seteuid(0)
        return True
    except OSError:
        return False


class plain:
    def __enter__(self):
        return self

    def __exit__(self, *e):
        return False


def no_descriptor():
    used = {f for f, _ in fds()}
    k = 0
    while k in used:
        k += 1
    return limit(resource.RLIMIT_NOFILE, k)


def shapes(x, r):
    """A different shape for an array variable."""
    how = r % 6
    if x.ndim == 1:
        return [np.append(x, x[-1:]), x[:-1], np.concatenate([x, x]), x[:1] if len(x) != 1 else np.append(x, x), np.append(x, x), x[:-1]][how]
    a, b = x.shape
    return [np.vstack([x, x[:1]]), x[:-1], np.hstack([x, x[:, :1]]), x[:, :-1], x.T if a != b else x[:-1], np.hstack([x, x])][how]


def ranks(x, r):
    if x.ndim == 0:
        return [x.reshape(1), np.array([x, x])][r % 2]
    if x.ndim == 1:
        return [x.reshape(1, -1), x.reshape(-1, 1), np.array([x, x])][r % 3]
    return [x.ravel(), x.reshape(1, *x.shape), x[0]][r % 3]


def attempt(f):
    try:
        f()
        return None
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def read_fault(case, good, bad, r):
    """Prepares the faulty file; returns (path, context, must_fail, label)."""
    fault, op = case["fault"], case["op"]
    data = open(good, "rb").read()
    asym = case["cfg"]["asym"]
    if op == "wout":
        req = WOUT_REQ + (vm.ORDER if asym else WOUT_SYM) + (vm.FLUX if case["flux"] else [])
    else:
        req = BOOZ_REQ + BOOZ_SYM + (BOOZ_ASYM if asym else [])
        if fault != "drop":
            req = req + ["chi_b"]              # may be missing, but not be wrong
    scalars = [k for k in req if k in ("lasym__logical__", "ns", "nfp", "mpol", "ntor", "mnmax", "mnmax_nyq", "aspect", "nfp_b", "mboz_b", "nboz_b",
                                       "mnboz_b", "aspect_b", "ns_b")]
    arrays = [k for k in req if k not in scalars]
    if fault == "none":
        return good, plain(), False, "none"
    if fault == "missing":
        return bad, plain(), True, fault
    if fault == "directory":
        return os.path.dirname(good), plain(), True, fault
    if fault in ("underfile", "enotdir"):
        return os.path.join(good, "x.nc"), plain(), True, fault
    if fault == "empty":
        open(bad, "wb").close()
        return bad, plain(), True, fault
    if fault == "garbage":
        head = [b"", b"CDF\x01", b"CDF\x02", b"CDF\x05", b"\x89HDF\r\n\x1a\n", b"CDF"][r % 6]
        n = (r >> 3) % 400
        body = ((gen.bulk(r, "garbage", (n,)) + 1) * 128).astype(np.uint8)
        # for the classic headers make the content certainly invalid: a tag that is no tag
        open(bad, "wb").write(head + b"\xfe\xfe\xfe\xfe\xfe\xfe\xfe\xfe" + body.tobytes())
        return bad, plain(), True, fault
    if fault == "magic":
        d = bytearray(data)
        k = r % 4
        d[k] = d[k] ^ (1 << ((r >> 2) % 8)) if k < 3 else 0x40 + (r >> 4) % 100
        open(bad, "wb").write(bytes(d))
        return bad, plain(), True, fault
    if fault in ("cut_header", "cut_data"):
        h = cdf.Header(data)
        n = r % h.end if fault == "cut_header" else h.end + r % (len(data) - h.end)
        open(bad, "wb").write(data[:n])
        return bad, plain(), fault == "cut_header", fault
    if fault == "drop":
        k = req[r % len(req)]
        cdf.rewrite(good, bad, drop=(k,))
        return bad, plain(), True, "drop " + k
    if fault == "dropdim":
        d = "radius" if op == "wout" or r % 2 else "comput_surfs"
        if op == "wout":
            return good, plain(), False, "none"
        cdf.rewrite(good, bad, dropdim=(d,))
        return bad, plain(), True, "drop dimension " + d
    if fault == "shape":
        k = arrays[r % len(arrays)]
        cdf.rewrite(good, bad, change={k: lambda x: shapes(x, r >> 8)})
        return bad, plain(), True, "shape of " + k
    if fault == "rank":
        k = req[r % len(req)]
        cdf.rewrite(good, bad, change={k: lambda x: ranks(x, r >> 8)})
        return bad, plain(), True, "rank of " + k
    if fault == "char":
        k = req[r % len(req)]
        cdf.rewrite(good, bad, types={k: "c"})
        return bad, plain(), True, "type of " + k
    if fault == "scalar":
        ks = ["ns", "mnmax", "mnmax_nyq"] if op == "wout" else ["mnboz_b"]
        k = ks[r % len(ks)]
        by = [1, -1, 100, -1000, 2**30, -2**31][(r >> 4) % 6]
        cdf.rewrite(good, bad, change={k: lambda x: np.int32(max(-2**31, min(2**31 - 1, int(x) + by)))})
        return bad, plain(), True, "value of " + k
    if fault == "intsize":              # an integer that does not fit in an int
        ks = [k for k in scalars if not k.startswith("aspect")] + (["xm", "xn", "xm_nyq", "xn_nyq"] if op == "wout" else ["ixm_b", "ixn_b", "jlist"])
        k = ks[r % len(ks)]

        def put(x):
            x = np.array(x, dtype=float)
            x.flat[(r >> 12) % x.size] = [1e12, -1e12, 3e9, 1e300][(r >> 8) % 4]
            return x
        cdf.rewrite(good, bad, change={k: put}, types={k: "d"})
        return bad, plain(), True, "value of " + k
    if fault == "range":
        if op == "wout":
            k = ["xm", "xn", "xm_nyq", "xn_nyq"][r % 4]
            i = (r >> 4)

            def put(x):
                x = np.array(x, dtype=float)
                x[i % len(x)] = [1e12, -1e12, 3e9, 1e300][(r >> 8) % 4]
                return x
        else:
            k = "jlist"

            def put(x):
                x = np.array(x)
                x[(r >> 4) % len(x)] = [1, 0, -1, case["cfg"]["ns"] + 1, 2**31 - 1, -2**31][(r >> 8) % 6]
                return x
        cdf.rewrite(good, bad, change={k: put}, types={k: "d"} if op == "wout" else {})
        return bad, plain(), True, "range of " + k
    if fault == "permission":
        if not can_drop():
            return good, plain(), False, "none"
        open(bad, "wb").write(data)
        os.chmod(bad, 0)
        return bad, nobody(), True, fault
    if fault == "readonly":
        # a file that may only be read is a valid file; the path is relative because only the last
        # directory is open to the other user
        if not can_drop():
            return good, plain(), False, "none"
        open(bad, "wb").write(data)
        os.chmod(bad, 0o444)
        os.chmod(os.path.dirname(bad), 0o755)
        return os.path.relpath(bad), nobody(), False, "none, read-only"
    if fault == "nofile":
        return good, no_descriptor(), True, fault
    raise AssertionError(fault)


def do_read(b, case, path):
    if case["op"] == "wout":
        b.read_wout(path, case["flux"])
    else:
        b.read_boozmn(path)


def run(case, ctx):
    v = vm.build(case["cfg"])
    good, bad, w1, w2 = (ctx.path(k) for k in ("good.nc", "bad.nc", "w1.nc", "w2.nc"))
    f = load(ctx.bx, v, case["flux"])
    setup_run(f, case)
    f.run()
    f.write_boozmn(w2)
    want = snap(f, INPUTS + OUTPUTS)
    if case["op"] == "boozmn":
        os.rename(w2, good)
        if case["version"] == 2:
            pass
        f.write_boozmn(w2)
    else:
        vm.write_wout(good, v, version=case["version"])
    b = ctx.bx.Booz_xform()
    b.verbose = 0
    other = vm.build(dict(case["cfg"], asym=not case["cfg"]["asym"], ns=case["cfg"]["ns"] % 4 + 2, seed=case["cfg"]["seed"] + 3, nfp=case["cfg"]["nfp"] % 3 + 1))
    if case["state"] != "fresh" or case["op"] == "write":
        load(ctx.bx, other, not case["flux"], b)
        setup_run(b, case)
        if case["state"] != "loaded" or case["op"] == "write":
            b.run()
        if case["state"] == "read":
            b.write_boozmn(w1)
            b.read_boozmn(w1)
    try:
        if case["op"] == "write":
            labels, effective = write_case(case, ctx, b, f, v, w1, w2)
        else:
            labels, effective = read_case(case, ctx, b, v, good, bad)
        recover(case, ctx, b, v, w1, w2, want)
    finally:
        for p in (good, bad, w1, w2):
            if os.path.lexists(p) and not os.path.isdir(p):
                os.unlink(p)
    return {"nontrivial": effective, "tags": [case["op"] + ": " + case["fault"], "object " + case["state"]] + labels}


def recover(case, ctx, b, v, w1, w2, want):
    """A valid history after the failure must give what a fresh object gave."""
    load(ctx.bx, v, case["flux"], b)
    setup_run(b, case)
    b.verbose = 0
    b.run()
    got = snap(b, INPUTS + OUTPUTS)
    for k in INPUTS + OUTPUTS:
        if k == "phip" or (k in vm.ASYM_ONLY and not v["asym"]):
            continue
        check(same(got[k], want[k]) or (np.size(got[k]) == 0 == np.size(want[k])),
              "after the failed call a valid load and run give a different %s: %s", k, describe(got[k], want[k]))
    b.write_boozmn(w1)
    check(open(w1, "rb").read() == open(w2, "rb").read(), "after the failed call a valid load, run and write give a different file")


def read_one(case, ctx, b, good, bad, r, sweep=None):
    c = dict(case, fault=sweep) if sweep else case
    path, cm, must, label = read_fault(c, good, bad, r)
    fmt = None if sweep else case.get("fmt")
    word = label.split()[0]
    if fmt and (label == "none" or path == bad and word in ("drop", "shape", "rank", "type", "value", "range")):
        # the same contents in another file format
        try:
            nc4.convert(path, bad + "4", fmt)
            os.rename(bad + "4", bad)
            path, label = bad, label + " (%s)" % fmt
        except nc4.NcError:         # the faulty contents cannot be expressed there (or read by scipy)
            pass
    elif fmt and fmt != "CDF-5" and word in ("cut_header", "cut_data"):
        nc4.convert(good, bad, fmt)
        n = os.path.getsize(bad)
        os.truncate(bad, [r % n, n - 1 - r % 64, n - 1][r % 3])
        must, label = True, "cut (%s)" % fmt
    before = fds()
    with cm:
        e = attempt(lambda: do_read(b, case, path))
    after = fds()
    check(before == after, "%s (%s): open descriptors changed: %s", case["op"], label, sorted(set(after) ^ set(before)))
    if must:
        check(e is not None, "reading a %s file with fault '%s' (r=%d) returned normally", case["op"], label, r)
    elif word.rstrip(",") == "none":
        check(e is None, "reading an intact %s file failed: %s", case["op"], e)
    elif label == "cut_data" and e is None:
        cut_data(case, ctx, b, good, bad)
    if os.path.exists(bad):
        os.unlink(bad)
    return label, must or label == "cut_data"


def cut_data(case, ctx, b, good, bad):
    """KF1: a data section that ends early is read as zeros. Anything else is a different failure - except that, a
    buffer or more after the cut, libnetcdf sometimes hands out what an earlier part of the file left in its buffer."""
    names = INPUTS + OUTPUTS

    def fresh(path):
        o = ctx.bx.Booz_xform()
        o.verbose = 0
        do_read(o, case, path)
        return snap(o, names)
    got, intact = fresh(bad), fresh(good)
    n = os.path.getsize(good)
    if all(same(got[k], intact[k]) for k in names):
        return                      # what was cut off was not needed, or was zero
    m = os.path.getsize(bad)
    with open(bad, "ab") as f:
        f.write(b"\0" * (n - m))
    zero = fresh(bad)
    if n > (m // 4096 + 2) * 4096:
        top = max(np.max(np.abs(intact[k]), initial=0) for k in names if isinstance(intact[k], np.ndarray) and np.size(intact[k]))
        for k in names:
            if isinstance(got[k], np.ndarray) and got[k].dtype.kind == "f" and got[k].shape == zero[k].shape:
                bad_one = ~(np.abs(got[k]) <= 1e3 * max(top, 1.0))
                check(not np.any(bad_one), "a %s file cut at byte %d of %d was accepted and %s has numbers that are not from the file: %s",
                      case["op"], m, n, k, describe(got[k], zero[k]))
            else:
                check(same(got[k], zero[k]) or np.ndim(got[k]) > 0, "a %s file cut at byte %d of %d was accepted and %s is %r", case["op"], m, n, k, got[k])
        return ctx.known("KF1", "a %s file cut at byte %d of %d (data section) was read without an exception" % (case["op"], m, n))
    for k in names:
        check(same(got[k], zero[k]), "a %s file cut at byte %d of %d was accepted and %s is neither rejected nor zero-filled: %s",
              case["op"], m, n, k, describe(got[k], zero[k]))
    ctx.known("KF1", "a %s file cut at byte %d of %d (data section) was read without an exception" % (case["op"], m, n))


def read_case(case, ctx, b, v, good, bad):
    if case["fault"].startswith("all "):        # every variable that is required, one after the other
        kind = case["fault"][4:]
        seen = []
        for r in range(40):
            for how in range({"shape": 6, "rank": 3, "intsize": 4}.get(kind, 1)):
                seen.append(read_one(case, ctx, b, good, bad, r + (how << 8) * 1, kind)[0])
        return ["%d variables: %s" % (len(set(seen)), kind)], True
    if case["fault"].startswith("sweep"):
        kind = case["fault"][6:]
        data = open(good, "rb").read()
        h = cdf.Header(data)
        lo, hi = (0, h.end) if kind == "cut_header" else (0, len(data) - h.end)
        n = 0
        for r in range(lo + case["r"], hi, case["parts"] if kind == "cut_header" else 8 * case["parts"]):
            read_one(case, ctx, b, good, bad, r, kind)
            n += 1
        return ["swept %s points" % kind], True
    label, eff = read_one(case, ctx, b, good, bad, case["r"])
    return ([label] if label != case["fault"] else []), eff


def unharmed(b, w1, results, content, what):
    """A failed write leaves the results as they were, and they can be written afterwards."""
    got = snap(b, OUTPUTS)
    for k in OUTPUTS:
        check(same(got[k], results[k]), "%s changed %s: %s", what, k, describe(got[k], results[k]))
    if content is not None:
        b.write_boozmn(w1)
        check(open(w1, "rb").read() == content, "after %s the results are written differently", what)


def write_one(b, w1, size, lim, content=None):
    results = snap(b, OUTPUTS)
    before = fds()
    with limit(resource.RLIMIT_FSIZE, lim):
        e = attempt(lambda: b.write_boozmn(w1))
    after = fds()
    check(before == after, "a write with a size limit of %d changed the open descriptors: %s", lim, sorted(set(after) ^ set(before)))
    if lim < size:
        check(e is not None, "write_boozmn returned normally although at most %d of %d bytes could be written", lim, size)
    else:
        check(e is None, "write_boozmn failed with a size limit of %d for a file of %d bytes: %s", lim, size, e)
    unharmed(b, w1, results, content, "a write with a size limit of %d" % lim)


def write_case(case, ctx, b, f, v, w1, w2):
    fault, r = case["fault"], case["r"]
    if fault.endswith("fsize"):
        content = open(w2, "rb").read()
        size = len(content)
        if fault.startswith("sweep"):
            for lim in range(case["r"], size + 1, case["parts"] * 4):
                write_one(f, w1, size, lim)
            write_one(f, w1, size, size)
            write_one(f, w1, size, size - 1, content)
            return ["swept size limits"], True
        lim = [r % size, max(size - 1 - r % 64, 0), r % 64, size][r >> 8 & 3]
        write_one(f, w1, size, lim, content)
        return [], lim < size
    path, cm, must = w1, plain(), True
    d = ctx.path("wdir")
    if fault == "none":
        must = False
    elif fault == "nodir":
        path = ctx.path("no_such/x.nc")
    elif fault == "underfile":
        path = os.path.join(w2, "x.nc")
    elif fault == "isdir":
        os.makedirs(d, exist_ok=True)
        path = d
    elif fault == "permission":
        if not can_drop():
            return ["cannot drop privileges"], False
        cm = nobody()
        os.makedirs(d, mode=0o700, exist_ok=True)
        path = os.path.join(d, "x.nc")
    elif fault == "nofile":
        cm = no_descriptor()
    elif fault == "norun":
        b = ctx.bx.Booz_xform()
        b.verbose = 0
        if r % 2:
            load(ctx.bx, v, case["flux"], b)
    elif fault == "failedrun":
        b = ctx.bx.Booz_xform()
        b.verbose = 0
        load(ctx.bx, v, case["flux"], b)
        b.compute_surfs = [b.ns_in]
        check(attempt(b.run) is not None, "run accepted a surface index that is out of range")
    results, content = snap(b, OUTPUTS), None
    if fault not in ("norun", "failedrun"):
        b.write_boozmn(w1)
        content = open(w1, "rb").read()
    before = fds()
    with cm:
        e = attempt(lambda: b.write_boozmn(path))
    after = fds()
    check(before == after, "a write with fault '%s' changed the open descriptors: %s", fault, sorted(set(after) ^ set(before)))
    check((e is not None) == must, "write_boozmn with fault '%s' %s", fault, "returned normally" if must else "failed: %s" % e)
    unharmed(b, w1, results, content, "a write with fault '%s'" % fault)
    if os.path.isdir(d):
        check(os.listdir(d) == [], "a failed write left %s", os.listdir(d))
        os.rmdir(d)
    return [], must
