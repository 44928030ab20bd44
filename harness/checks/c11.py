"""C11: histories of one object against fresh objects."""
import os
import types
import numpy as np
from hypothesis import strategies as st
import gen
import vm
from bx import check, snap, same, describe, set_attrs, Violation, INPUTS, OUTPUTS, OUT_MISC, SYM_OUT, ASYM_OUT
from checks import c01

ID = "C11"
BUDGET = {"quick": 5000, "thorough": 80000}
RULE = ("random history of 2 to 14 operations on one object (read_wout with/without flux, init_from_vmec, direct assignment, "
        "read_boozmn, changes of attributes, run, write_boozmn, and calls that fail: missing or broken files, inconsistent arrays, "
        "invalid surfaces), drawn from two or three equilibria of different size and symmetry. After each load every loaded "
        "attribute, after each run every output and after each write the file must be bitwise what a fresh object gives for "
        "the same inputs, and the spectra what the equations give; equilibria and resolutions that agree in their sizes are favoured; the history ends with a load, run and write. Non-trivial: at least two loads or runs before the last")


@st.composite
def _s(draw):
    eqs = [draw(vm.vmec(max_ns=5, max_m=2, max_n=2, wide=False)) for _ in range(draw(st.sampled_from([2, 2, 3])))]
    # twins: equilibria that agree in all sizes and differ in one respect only
    twin = draw(st.sampled_from([None, None, "seed", "nfp", "iota", "G", "lam", "asym"]))
    if twin:
        t = dict(eqs[0])
        t[twin] = {"seed": t["seed"] ^ 1, "nfp": t["nfp"] % 5 + 1, "iota": t["iota"] + 0.3, "G": -t["G"], "lam": 0.3 - t["lam"],
                   "asym": not t["asym"]}[twin]
        eqs[1] = t
    eq = st.integers(0, len(eqs) - 1)
    r16 = st.integers(0, 2**16)
    op = st.one_of(
        st.tuples(st.just("wout"), eq, st.booleans()), st.tuples(st.just("vmec"), eq, st.booleans()),
        st.tuples(st.just("direct"), eq), st.tuples(st.just("boozmn"), eq, r16),
        st.tuples(st.just("run")), st.tuples(st.just("run")), st.tuples(st.just("run")), st.tuples(st.just("write")),
        st.tuples(st.just("res"), st.integers(1, 6), st.integers(0, 4)), st.tuples(st.just("res"), st.integers(1, 6), st.integers(0, 4)),
        st.tuples(st.just("surfs"), r16), st.tuples(st.just("surfs"), r16),
        st.tuples(st.just("twinres"), st.integers(0, 200)), st.tuples(st.just("twinres"), st.integers(0, 200)),
        st.tuples(st.just("asym"), st.booleans()), st.tuples(st.just("aspect"), r16), st.tuples(st.just("edit"), r16), st.tuples(st.just("poison"), r16),
        st.tuples(st.just("bad"), st.sampled_from(["missing", "garbage", "shape", "surf", "novar", "boozmn", "writedir", "badvar"]), eq))
    ops = draw(st.lists(op, min_size=1, max_size=11))
    last = draw(st.one_of(st.tuples(st.just("wout"), eq, st.booleans()), st.tuples(st.just("vmec"), eq, st.booleans()),
                          st.tuples(st.just("direct"), eq)))
    tail = [list(last)]
    if draw(st.booleans()):
        tail.append(["res", draw(st.integers(1, 6)), draw(st.integers(0, 4))])
    if draw(st.booleans()):
        tail += [["res"] + list(draw(st.sampled_from([(4, 1), (2, 2), (6, 1), (2, 3), (5, 2), (1, 1), (3, 1), (1, 2), (4, 2)]))),
                 ["run"], ["twinres", draw(st.integers(0, 200))]]
    if draw(st.booleans()):
        tail.append(["surfs", draw(r16)])
    if draw(st.integers(0, 5)) == 3:
        tail += [["poison", draw(r16)]] + ([["res", draw(st.integers(1, 3)), draw(st.integers(0, 1))]] if draw(st.booleans()) else [])
    if draw(st.booleans()):     # one number changes between two runs
        tail += [["run"], ["edit", draw(r16)]]
    return {"eqs": eqs, "ops": [list(o) for o in ops] + tail + [["run"], ["write"]] + ([["run"], ["write"]] if draw(st.booleans()) else [])}


def strategy(tier):
    return _s()


EDIT = ["bmnc", "bmnc", "iota", "lmns", "rmnc", "zmns", "bsubumnc", "bsubvmnc", "s_in", "bmns", "lmnc", "rmns", "zmnc",
        "bsubumns", "bsubvmns", "phi", "pres"]


def points(asym, mb, nb):
    return 2 * (2 * mb + 1 if asym else mb + 1) * (2 * (2 * nb + 1) if nb else 1)


def twins(asym, mb, nb):
    """Other resolutions with the same number of grid points, or the same number of modes."""
    size = lambda m, n: (m - 1) * (2 * n + 1) + n + 1
    out = []
    for m in range(1, 13):
        for n in range(6):
            if (m, n) != (mb, nb) and (points(asym, m, n) == points(asym, mb, nb) or size(m, n) == size(mb, nb)):
                out.append((m, n))
    return out


class World:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.v = [vm.build(c) for c in case["eqs"]]
        self.wouts = {}
        self.n = 0

    def wout(self, i):
        if i not in self.wouts:
            p = self.ctx.path("wout_%d.nc" % i)
            vm.write_wout(p, self.v[i])
            self.wouts[i] = p
        return self.wouts[i]

    def fresh(self):
        b = self.ctx.bx.Booz_xform()
        b.verbose = 0
        return b

    def boozmn(self, i, r):
        b = self.fresh()
        vm.call(b, self.v[i], r % 2 == 1)
        b.mboz, b.nboz = 1 + r % 5, (r >> 4) % 3
        b.compute_surfs = [(r >> k) % b.ns_in for k in range(1 + (r >> 8) % 3)]
        b.run()
        p = self.ctx.path("boozmn_%d.nc" % self.n)
        self.n += 1
        b.write_boozmn(p)
        return p


def direct(b, v):
    e = vm.half(v, False)
    set_attrs(b, {k: e[k] for k in e})
    return b


def attempt(f):
    try:
        f()
        return None
    except Violation:
        raise
    except Exception as e:
        return type(e).__name__ + ": " + str(e)


def compare(x, y, names, what):
    for k in names:
        check(same(x[k], y[k]) or (np.size(x[k]) == 0 == np.size(y[k])), "%s: %s is not what a fresh object gives: %s", what, k, describe(x[k], y[k]))


def run(case, ctx):
    """The whole history is carried out first, with no other object in use; the fresh objects come afterwards."""
    W = World(case, ctx)
    files = {}
    for pos, op in enumerate(case["ops"]):
        if op[0] == "boozmn":
            files[pos] = W.boozmn(op[1], op[2])
        elif op[0] == "wout" or op[0] == "bad":
            W.wout(op[-2] if op[0] == "wout" else op[2])
    b = W.fresh()
    events = 0
    failed = 0
    just_ran = None       # inputs, if the preceding operation was a successful run
    later = []            # comparisons with fresh objects
    BOOZMN = ["asym", "nfp", "mboz", "nboz", "aspect", "ns_in", "iota", "phi", "phip", "chi", "pres", "toroidal_flux", "compute_surfs"] + OUTPUTS

    def load(what, names, f):
        f(b)
        got = snap(b, names)

        def compare_fresh():
            o = W.fresh()
            f(o)
            compare(got, snap(o, names), names, what)
        later.append(compare_fresh)

    def did_run(what):
        x = snap(b, INPUTS)
        e1 = attempt(b.run)
        y = snap(b, OUTPUTS)
        names = SYM_OUT + ASYM_OUT + ["mnboz"]

        def compare_fresh():
            f = W.fresh()
            set_attrs(f, x)
            e2 = attempt(f.run)
            check((e1 is None) == (e2 is None), "%s: the used object %s, a fresh object with the same inputs %s", what,
                  e1 or "succeeds", e2 or "succeeds")
            if e1 is None:
                compare(y, snap(f, OUTPUTS), OUTPUTS, what)
                # the fresh object lives in the same process: compare with the equations as well
                # (after read_boozmn nfp can be one that does not fit the mode tables: not consistent input)
                if not (np.any(x["xn"] % x["nfp"]) or np.any(x["xn_nyq"] % x["nfp"])):
                    c01.compare(types.SimpleNamespace(**{k: y[k] for k in names}), x,
                                {"mboz": x["mboz"], "nboz": x["nboz"], "surfs": [int(i) for i in x["compute_surfs"]]}, what + ": ")
        later.append(compare_fresh)
        return x, e1

    def wrote(what, data, e1):
        x = just_ran

        def compare_fresh():
            check(e1 is None, "%s: writing after a successful run failed: %s", what, e1)
            f = W.fresh()
            set_attrs(f, x)
            f.run()
            q = ctx.path("w2.nc")
            f.write_boozmn(q)
            check(data == open(q, "rb").read(), "%s: the file differs from the one a fresh object writes", what)
        later.append(compare_fresh)

    for pos, op in enumerate(case["ops"]):
        k = op[0]
        what = "operation %d %s" % (pos, op)
        ran = None
        if k in ("wout", "vmec", "direct"):
            v = W.v[op[1]]
            names = [n for n in INPUTS if (v["asym"] or n not in vm.ASYM_ONLY) and (n != "aspect" or k == "wout")]
            if k == "wout":
                load(what, names, lambda o, op=op: o.read_wout(W.wout(op[1]), op[2]))
            elif k == "vmec":
                load(what, names, lambda o, op=op, v=v: vm.call(o, v, op[2]))
            else:
                load(what, names, lambda o, v=v: direct(o, v))
            events += 1
        elif k == "boozmn":
            load(what, BOOZMN, lambda o, p=files[pos]: o.read_boozmn(p))
            events += 1
        elif k == "run":
            x, e1 = did_run(what)
            if e1 is None:
                ran = x
            else:
                failed += 1
            events += 1
        elif k == "write":
            p = ctx.path("w1.nc")
            e1 = attempt(lambda: b.write_boozmn(p))
            if just_ran is not None:
                wrote(what, open(p, "rb").read() if e1 is None else b"", e1)
        elif k == "res":
            b.mboz, b.nboz = op[1], op[2]
        elif k == "twinres":
            t = twins(b.asym, b.mboz, b.nboz)
            if t:
                b.mboz, b.nboz = t[op[1] % len(t)]
        elif k == "surfs":
            n = max(b.ns_in, 1)
            b.compute_surfs = [(op[1] >> j) % n for j in range(1 + (op[1] >> 9) % 4)]
        elif k == "asym":
            b.asym = op[1]
        elif k == "aspect":
            b.aspect = float(op[1])
        elif k == "edit":
            name = EDIT[op[1] % len(EDIT)]
            x = np.array(getattr(b, name))
            if x.size:
                x.flat[(op[1] >> 4) % x.size] *= 1.01
                setattr(b, name, x)
        elif k == "poison":
            name = EDIT[op[1] % len(EDIT)]
            x = np.array(getattr(b, name))
            if np.size(x):
                y = np.array(x)
                y.flat[(op[1] >> 7) % y.size] = [np.nan, np.inf, -np.inf, 1e308][(op[1] >> 4) % 4]
                if op[1] & 2048:
                    y[:] = 0.0
                setattr(b, name, y)
                attempt(b.run)
                setattr(b, name, x)
        elif k == "bad":
            bad(W, b, op, what)
            failed += 1
        just_ran = ran
    for f in later:
        f()
    for p in list(W.wouts.values()) + list(files.values()):
        os.unlink(p)
    return {"nontrivial": events >= 4, "tags": ["failed calls"] * bool(failed) + ["events>=6"] * (events >= 6)
            + sorted(set("op " + o[0] for o in case["ops"]))}


def bad(W, b, op, what):
    kind, i = op[1], op[2]
    ctx = W.ctx
    v = W.v[i]
    p = ctx.path("bad.nc")
    if kind == "missing":
        e = attempt(lambda: b.read_wout(ctx.path("does_not_exist.nc")))
    elif kind == "garbage":
        open(p, "wb").write(b"CDF\x01" + b"garbage" * 20)
        e = attempt(lambda: b.read_wout(p))
    elif kind == "shape":
        e = attempt(lambda: vm.call(b, v, over={"bsubvmnc": np.zeros((1, 1 + v["ns"]))}))
    elif kind == "surf":
        old = np.array(b.compute_surfs)
        b.compute_surfs = [max(b.ns_in, 0)]
        e = attempt(b.run)
        b.compute_surfs = old
    elif kind in ("novar", "badvar"):
        if kind == "novar":
            vm.write_wout(p, v, drop=("bsubvmnc",))
        else:
            vm.write_wout(p, v, resize={"lmns": lambda x: x[:-1]})
        e = attempt(lambda: b.read_wout(p))
    elif kind == "boozmn":
        e = attempt(lambda: b.read_boozmn(W.wout(i)))
    else:
        e = attempt(lambda: b.write_boozmn(ctx.path("no_such_directory/x.nc")))
    check(e is not None, "%s: the call did not fail", what)
