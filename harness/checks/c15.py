"""C15: inconsistent input is rejected, consistent input accepted."""
import numpy as np
from hypothesis import strategies as st
import gen
import vm
from bx import check, close, loaded, set_attrs, Violation, SYM_OUT

ID = "C15"
BUDGET = {"quick": 16000, "thorough": 250000}
RULE = ("a consistent set of inputs (init_from_vmec arguments, or directly assigned attributes) with zero to three random deviations: "
        "array shapes, ns, nfp, mode counts, table lengths, first and last table entries, flux arrays, surface indices out of range. "
        "With a deviation in anything that is required the call must raise; without one it must succeed and give the documented "
        "values. Non-trivial: at least one effective deviation")
SYM = [k for k in vm.ORDER if k not in vm.ASYM_ONLY]
SHAPES = ["row+", "row-", "col+", "col-", "T", "empty", "1d", "row2", "col2"]
VM_KINDS = ["array"] * 6 + ["iotas", "iotas", "flux", "flux", "ns", "nfp", "count", "table_len", "table_first", "table_last", "limit", "no00", "no00"]
ALL_NYQ = vm.HALF_NYQ
ALL_P = [k for k in vm.ORDER if k not in vm.HALF_NYQ]
RUN_KINDS = ["surfs"] * 4 + ["array"] * 4 + ["profile", "count", "table_len", "table_range", "table_first", "scalar"]


@st.composite
def _s(draw):
    mode = draw(st.sampled_from(["vmec", "vmec", "run"]))
    kinds = VM_KINDS if mode == "vmec" else RUN_KINDS
    n = draw(st.sampled_from([0, 1, 1, 1, 1, 2, 3]))
    devs = [[draw(st.sampled_from(kinds)), draw(st.integers(0, 2**24))] for _ in range(n)]
    c = {"mode": mode, "devs": devs, "flux": draw(st.booleans())}
    if mode == "vmec":
        c["cfg"] = draw(vm.vmec(max_ns=5, max_m=2, max_n=2))
    else:
        c.update(draw(gen.run_case(max_ns=4, max_m=2, max_n=2)))
        c["mboz"], c["nboz"] = min(c["mboz"], 5), min(c["nboz"], 3)
        c["base"] = draw(st.sampled_from(["direct", "vmec"]))
        c["vcfg"] = draw(vm.vmec(max_ns=5, max_m=2, max_n=2, wide=False)) if c["base"] == "vmec" else None
    return c


def strategy(tier):
    return _s()


def reshape(x, how):
    """A different shape; returns None if this deviation does not change the shape."""
    r, c = x.shape
    y = {"row+": lambda: np.vstack([x, x[:1]]), "row-": lambda: x[:-1], "col+": lambda: np.hstack([x, x[:, :1]]),
         "col-": lambda: x[:, :-1], "T": lambda: x.T, "empty": lambda: np.zeros((0, 0)), "1d": lambda: x[:, 0],
         "row2": lambda: np.vstack([x, x]), "col2": lambda: np.hstack([x, x])}[how]()
    same = (y.shape == x.shape) if y.ndim == 2 else (r, c) == (len(y), 1)
    return None if same else np.array(y, copy=True)


def vec(x, r):
    how = r % 4
    return [np.append(x, x[-1:] if len(x) else 0), x[:-1], np.concatenate([x, x]), x[:0]][how]


def apply_vm(v, over, kind, r, flux):
    """Apply one deviation; returns a label if it makes the input inconsistent, else None."""
    ns = v["ns"]
    if kind == "array":
        req = vm.ORDER if v["asym"] else SYM
        k = vm.ORDER[r % 12]
        how = SHAPES[(r >> 4) % len(SHAPES)]
        if k not in req:
            over[k] = gen.bulk(r, "x", ((r >> 8) % 4, (r >> 10) % 5))     # ignored: must be accepted
            return None
        if k in over:
            return None
        y = reshape(v[k], how)
        if y is None:
            return None
        over[k] = y
        return "%s %s" % (k, how)
    if kind == "iotas":
        over["iotas"] = vec(v["iotas"], r)
        return "iotas"
    if kind == "flux":
        if not flux:
            return None
        k = vm.FLUX[r % 4]
        y = vec(v[k], r >> 2)
        if k == "phipf" and len(y) == 0:
            return None
        if k in over:
            return None
        over[k] = y
        return "flux array " + k
    if kind == "ns":
        if "ns" in over:
            return None
        over["ns"] = [ns - 1, ns + 1, 1, 0, -3, 2 * ns, ns - 2][r % 7]
        return "ns"
    if kind == "nfp":
        v["nfp"] = [0, -1, -v["nfp"]][r % 3]
        return "nfp"
    q = "_nyq" if r % 2 else ""
    if kind == "no00":
        # everything is consistent, except that the tables do not begin with (0, 0)
        n, nfp, t = len(v["xm" + q]), v["nfp"], np.stack([v["xm" + q], v["xn" + q]])
        rows = np.arange(n)
        how = (r >> 1) % 3
        if n == 1:
            t[1, 0] = nfp * (1 + (r >> 3) % 3)
            v["ntor" + q] = int(t[1, 0]) // nfp
        elif how == 0 and n > 2:
            rows = rows[1:]
        elif how == 1 and n > 2:
            j = 1 + (r >> 3) % (n - 2)
            rows[[0, j]] = rows[[j, 0]]
        else:
            t[(r >> 3) % 2, 0] = nfp
        if tuple(t[:, rows[0]]) == (0, 0):
            return None
        for k in (ALL_NYQ if q else ALL_P):
            if k in v:
                v[k] = v[k][rows]
        v["xm" + q], v["xn" + q] = (np.ascontiguousarray(x[rows], dtype=np.int32) for x in t)
        v["mnmax" + q] = len(rows)
        return "no mode (0,0) at the beginning of xm%s" % q
    if kind == "count":
        if v["mnmax" + q] != len(v["xm" + q]):
            return None
        v["mnmax" + q] += [1, -1, 5][(r >> 1) % 3]
        return "mnmax" + q
    if kind == "table_len":
        t = ("xm" if r & 2 else "xn") + q
        if len(v[t]) != v["mnmax" + q]:
            return None
        v[t] = vec(v[t], r >> 2).astype(np.int32)
        return "length of " + t
    if kind == "table_first":
        t = ("xm" if r & 2 else "xn") + q
        if len(v[t]) == 0 or v[t][0] != 0:
            return None
        v[t] = v[t].copy()
        v[t][0] = [1, -1, 3][(r >> 2) % 3]
        return "first entry of " + t
    if kind == "table_last":
        t = "xn" + q
        if len(v[t]) == 0 or v.get("touched" + q):
            return None
        v["touched" + q] = 1
        v[t] = v[t].copy()
        v[t][-1] += [1, -1, max(v["nfp"], 1)][(r >> 2) % 3]
        return "last entry of " + t
    if v.get("touched" + q):
        return None
    v["touched" + q] = 1
    v["ntor" + q] += 1 if (r & 4 or v["ntor" + q] == 0) else -1
    return "ntor" + q


def run_vm(case, ctx):
    cfg = case["cfg"]
    v = vm.build(cfg)
    good = {k: (x.copy() if isinstance(x, np.ndarray) else x) for k, x in v.items()}
    over, bad = {}, []
    flux = case["flux"]
    seen = set()
    for kind, r in case["devs"]:
        if kind == "no00" and len(case["devs"]) > 1:
            continue
        group = "table" if kind in ("table_first", "table_last", "limit") else kind
        if group in ("nfp", "count", "table", "table_len", "ns", "iotas") and group in seen:
            continue                               # two deviations must not cancel
        seen.add(group)
        lab = apply_vm(v, over, kind, r, flux)
        if lab:
            bad.append(lab)
    b = ctx.bx.Booz_xform()
    b.verbose = 0
    try:
        vm.call(b, v, flux, over=over)
        ok = True
    except Exception as e:
        ok, err = False, e
    if bad:
        check(not ok, "init_from_vmec accepted inconsistent input: %s", ", ".join(bad))
    else:
        check(ok, "init_from_vmec rejected consistent input (%s): %s", case["devs"], None if ok else err)
    if bad:
        # a later consistent call on the same object works
        vm.call(b, good, flux)
    e = vm.half(good, flux)
    for k in ("rmnc", "zmns", "lmns", "bmnc", "bsubumnc", "bsubvmnc", "iota", "s_in"):
        close(getattr(b, k), e[k], 1e-13 * np.max(np.abs(e[k]), initial=0), k)
    if not bad and v["asym"]:
        for k in vm.ASYM_ONLY:
            close(getattr(b, k), e[k], 1e-13 * np.max(np.abs(e[k]), initial=0), k)
    return {"nontrivial": bool(bad), "tags": ["init_from_vmec", "asym" if v["asym"] else "sym"]
            + (["rejected: " + x.split()[0] for x in bad[:1]] if bad else ["accepted"])}


def apply_run(a, case, kind, r):
    ns = a["ns_in"]
    if kind == "surfs":
        e = [-1, ns, ns + 1, -ns, 2**31 - 1, -2**31, -1 - r % 50, ns + r % 1000][r % 8]
        L = list(case["surfs"])
        L.insert((r >> 3) % (len(L) + 1), e)
        case["surfs"] = L
        return "surface %d" % e
    if kind == "array":
        req = vm.ORDER if a["asym"] else SYM
        k = vm.ORDER[r % 12]
        if k not in req:
            a[k] = gen.bulk(r, "x", ((r >> 8) % 4, (r >> 10) % 5))
            return None
        if k in a.get("done", ()):
            return None
        y = reshape(a[k], SHAPES[(r >> 4) % len(SHAPES)])
        if y is None:
            return None
        a.setdefault("done", set()).add(k)
        a[k] = y
        return k
    if kind == "profile":
        k = ["iota", "s_in"][r % 2]
        if len(a[k]) != ns:
            return None
        a[k] = vec(a[k], r >> 1)
        return k
    q = "_nyq" if r % 2 else ""
    if kind == "count":
        if len(a["xm" + q]) != a["mnmax" + q] or len(a["xn" + q]) != a["mnmax" + q]:
            return None
        a["mnmax" + q] += [1, -1, -a["mnmax" + q], 7][(r >> 1) % 4]
        return "mnmax" + q
    if kind == "table_len":
        t = ("xm" if r & 2 else "xn") + q
        if len(a[t]) != a["mnmax" + q]:
            return None
        a[t] = vec(a[t], r >> 2).astype(np.int32)
        return "length of " + t
    if kind == "table_range":
        t = ("xm" if r & 2 else "xn") + q
        if len(a[t]) == 0:
            return None
        a[t] = a[t].copy()
        j = (r >> 4) % len(a[t])
        if r & 2:
            a[t][j] = [-1, a["mpol" + q] + 1, 10000][(r >> 2) % 3]
        else:
            if a["nfp"] < 1:
                return None
            a[t][j] = [(a["ntor" + q] + 1) * a["nfp"], -(a["ntor" + q] + 1) * a["nfp"], 10**6 * a["nfp"]][(r >> 2) % 3]
        return "range of " + t
    if kind == "table_first":
        t = ["xm_nyq", "xn_nyq"][r >> 1 & 1]
        if len(a[t]) == 0 or a[t][0] != 0:
            return None
        a[t] = a[t].copy()
        a[t][0] = [1, -1, 2, a["nfp"], -a["nfp"]][(r >> 2) % 5]
        return "first entry of " + t
    which = r % 4
    if which == 0:
        a["nfp"] = [0, -2][(r >> 2) % 2]
        return "nfp"
    if which == 1:
        if a["ns_in"] != len(a["iota"]):
            return None
        a["ns_in"] = [ns + 1, ns - 1, 0, -1, 10**6][(r >> 2) % 5]
        return "ns_in"
    if which == 2:
        case["mboz"] = [0, -1, -100][(r >> 2) % 3]
        return "mboz"
    case["nboz"] = [-1, -7][(r >> 2) % 2]
    return "nboz"


def run_direct(case, ctx):
    case = dict(case)
    b = ctx.bx.Booz_xform()
    b.verbose = 0
    if case["base"] == "vmec":
        vm.call(b, vm.build(case["vcfg"]))
        a = {"ns_in": b.ns_in, "asym": b.asym, "nfp": b.nfp}
        case["surfs"] = [s % b.ns_in for s in case["surfs"]]
        devs = [d for d in case["devs"] if d[0] == "surfs"]
    else:
        a = gen.materialize(case["cfg"])
        devs = case["devs"]
    good = {k: (x.copy() if isinstance(x, np.ndarray) else x) for k, x in a.items()}
    S, mb, nb = list(case["surfs"]), case["mboz"], case["nboz"]
    bad = []
    seen = set()
    for kind, r in devs:
        if kind not in ("surfs", "array") and kind in seen:
            continue
        seen.add(kind)
        lab = apply_run(a, case, kind, r)
        if lab:
            bad.append(lab)
    a.pop("done", None)
    if case["base"] == "direct":
        set_attrs(b, a)
    b.mboz, b.nboz, b.compute_surfs = case["mboz"], case["nboz"], np.array(case["surfs"], dtype=np.int64).astype(np.int32)
    try:
        b.run()
        ok = True
    except Exception as e:
        ok, err = False, e
    if bad:
        check(not ok, "run() accepted inconsistent input: %s", ", ".join(bad))
        if case["base"] == "direct":
            set_attrs(b, good)
        b.mboz, b.nboz, b.compute_surfs = mb, nb, S
        b.run()
    else:
        check(ok, "run() rejected consistent input (%s): %s", devs, None if ok else err)
    for k in SYM_OUT:
        check(getattr(b, k).shape == (b.mnboz, len(S)) and np.all(np.isfinite(getattr(b, k))), "%s is not finite or misshapen", k)
    return {"nontrivial": bool(bad), "tags": ["run", "base " + case["base"]]
            + (["rejected: " + x.split()[0] for x in bad[:1]] if bad else ["accepted"])}


def run(case, ctx):
    return run_vm(case, ctx) if case["mode"] == "vmec" else run_direct(case, ctx)
