"""C23: attributes as a faithful transport between Python and the library."""
import gc
import numpy as np
from hypothesis import strategies as st
import gen
import vm
from checks import c16, c17
from bx import check, snap, same, value_same, describe, Violation, INPUTS, OUTPUTS, ALL, NONNYQ, NYQ

ID = "C23"
BUDGET = {"quick": 8000, "thorough": 200000}
RULE = ("stateful: a random sequence of attribute operations on one object (assignments in random memory layouts and types, from other "
        "attributes, wrongly typed ones, values an integer cannot hold, writes to outputs and to arrays obtained by reading, deletions, "
        "unknown names) against a dictionary as the model, all attributes compared after each step; and whole configurations passed to "
        "run() or init_from_vmec() in random layouts and types, against plain arrays, bitwise; and output attributes, some not finite, against the numbers in boozmn files. Non-trivial: at least three effective "
        "assignments of non-empty values or a layout other than C-ordered float64")
ASSUMPTIONS = ["complex numbers, strings of digits and None inside lists are not generated: numpy itself converts them",
               "None and other objects are not assigned to the one boolean attribute (pybind11 converts them)"]
INTS = ["nfp", "mpol", "ntor", "mnmax", "mpol_nyq", "ntor_nyq", "mnmax_nyq", "ns_in", "mboz", "nboz", "verbose"]
FLOATS = ["aspect", "toroidal_flux"]
IVEC = ["xm", "xn", "xm_nyq", "xn_nyq", "compute_surfs"]
FVEC = ["s_in", "iota", "phi", "phip", "chi", "pres"]
MATS = NONNYQ + NYQ
NAMES = INTS + FLOATS + ["asym"] + IVEC + FVEC + MATS
DEFAULTS = {"verbose": 1, "asym": False, "nfp": 1, "mboz": 16, "nboz": 16, "aspect": 0.0, "toroidal_flux": 0.0}
LAYOUTS = ["C", "F", "step", "neg", "slice", "rev2", "swap", "readonly", "list", "tuple", "zero-stride"]
TYPES = ["f8", "f8", "f4", "f2", "i4", "i8", "i2", "u1", ">f8", ">i4", "bool", "g"]
SPECIAL = [0.0, -0.0, float("nan"), float("inf"), -float("inf"), 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, 1e-3, 1 / 3]


@st.composite
def _op(draw):
    k = draw(st.sampled_from(["set", "set", "set", "set", "int", "float", "cross", "bad", "bad", "output", "view", "selfview", "unknown", "delete"]))
    op = {"op": k, "seed": draw(st.integers(0, 2**32 - 1))}
    if k == "set":
        op.update(name=draw(st.sampled_from(IVEC + FVEC + MATS + MATS)), shape=[draw(st.integers(0, 5)), draw(st.integers(0, 5))],
                  layout=draw(st.sampled_from(LAYOUTS)), type=draw(st.sampled_from(TYPES)), special=draw(st.booleans()))
    elif k == "int":
        op.update(name=draw(st.sampled_from(INTS)), v=draw(st.one_of(st.integers(-5, 40), st.sampled_from([2**31 - 1, -2**31, 2**31, 2**32, -2**31 - 1, 2**64]))),
                  how=draw(st.sampled_from(["int", "int", "i8", "i4", "float", "str", "none", "list"])))
    elif k == "float":
        op.update(name=draw(st.sampled_from(FLOATS)), v=draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 8, 9])),
                  how=draw(st.sampled_from(["float", "f8", "f4", "int", "str", "none", "list"])))
    elif k == "cross":
        op.update(name=draw(st.sampled_from(FVEC + MATS + IVEC)), other=draw(st.integers(0, 40)),
                  how=draw(st.sampled_from(["same", "rev", "T", "double", "half", "self"])))
    elif k == "bad":
        op.update(name=draw(st.sampled_from(IVEC + FVEC + MATS)),
                  how=draw(st.sampled_from(["str", "strs", "none", "dict", "object", "3d", "ragged", "scalar", "big", "frac", "nan", "2d"])))
    elif k == "output":
        op.update(name=draw(st.sampled_from(OUTPUTS)))
    elif k in ("view", "selfview", "delete"):
        op.update(name=draw(st.sampled_from(INPUTS + OUTPUTS)))
    return op


@st.composite
def _s(draw):
    kind = draw(st.sampled_from(["ops", "ops", "ops", "run", "vmec", "alive", "outputs"]))
    c = {"kind": kind}
    if kind == "outputs":
        c["how"] = draw(st.sampled_from(["read", "ran"]))
        if c["how"] == "read":
            c.update(draw(c17._read()))
            c.update(kind=kind, special=True)
        else:
            c.update(draw(gen.run_case(max_ns=3, max_m=2, max_n=2, wide=False)))
            c["poison"] = [draw(st.sampled_from(c16.POISON)), draw(st.integers(0, 2**16)), draw(st.sampled_from(["nan", "inf", "-inf", "1e200", "1.0"]))]
        return c
    if kind == "ops":
        c["start"] = draw(st.sampled_from(["new", "new", "loaded", "ran"]))
        c["ops"] = draw(st.lists(_op(), min_size=1, max_size=12))
    else:
        if kind == "vmec":
            c["cfg"] = draw(vm.vmec(max_ns=4, max_m=2, max_n=1, wide=False))
        else:
            c.update(draw(gen.run_case(max_ns=3, max_m=2, max_n=2, wide=False)))
        c["layouts"] = draw(st.lists(st.sampled_from(LAYOUTS), min_size=1, max_size=6))
        c["types"] = draw(st.lists(st.sampled_from(["f8", "f8", "f4", ">f8", "g"]), min_size=1, max_size=3))
        c["flux"] = draw(st.booleans())
    return c


def strategy(tier):
    return _s()


def lay(x, layout):
    """The same values in another memory layout."""
    if layout == "C":
        return np.ascontiguousarray(x)
    if layout == "F":
        return np.asfortranarray(x)
    if layout in ("list", "tuple"):
        if x.ndim == 2 and 0 in x.shape:
            return x                      # nested lists cannot express these shapes
        return x.tolist() if layout == "list" else tuple(map(tuple, x.tolist())) if x.ndim == 2 else tuple(x.tolist())
    if layout == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if layout == "zero-stride":
        if x.size and x.ndim == 2 and all(x[0].tobytes() == r.tobytes() for r in x):
            return np.broadcast_to(x[0], x.shape)
        if x.size and x.ndim == 1 and all(x[:1].tobytes() == x[i:i + 1].tobytes() for i in range(len(x))):
            return np.broadcast_to(x[0], x.shape)
        return x
    if layout == "step":
        big = np.full(tuple(2 * n + 1 for n in x.shape), 77, dtype=x.dtype)
        v = big[tuple(slice(0, 2 * n, 2) for n in x.shape)]
    elif layout == "neg":
        big = np.full(x.shape, 77, dtype=x.dtype)
        v = big[tuple(slice(None, None, -1) for _ in x.shape)]
    elif layout == "slice":
        big = np.full(tuple(n + 3 for n in x.shape), 77, dtype=x.dtype)
        v = big[tuple(slice(1, 1 + n) for n in x.shape)]
    elif layout == "rev2":
        big = np.full(x.shape, 77, dtype=x.dtype, order="F")
        v = big[..., ::-1]
    else:  # swap: transposed C array with a step
        big = np.full(tuple(3 * n + 2 for n in x.shape[::-1]), 77, dtype=x.dtype)
        v = big[tuple(slice(1, 1 + 3 * n, 3) for n in x.shape[::-1])].T
    v[...] = x
    return v


def values(seed, shape, dt, integer, special):
    u = gen.bulk(seed, "v", shape)
    kind = np.dtype(dt).kind if dt != "bool" else "b"
    if kind == "b":
        return u > 0
    if kind == "u":
        return ((u + 1) * 100).astype(dt)
    if kind == "i" or integer:
        top = {"i2": 2**15 - 1, "f2": 2048, "f4": 2**24}.get(dt, 2**31 - 1)
        x = np.round(u * top)
        if special and x.size:
            x.ravel()[0] = -top
        return x.astype(dt)
    x = u * 3
    if special and x.size:
        k = np.abs(np.round(gen.bulk(seed, "k", shape) * 20)).astype(int)
        with np.errstate(all="ignore"):
            x = np.where(k < len(SPECIAL), np.array(SPECIAL)[np.minimum(k, len(SPECIAL) - 1)], x)
    with np.errstate(all="ignore"):
        return x.astype(dt)


def plain(x, integer):
    return np.array(x, dtype=np.int32 if integer else np.float64, order="C", copy=True)


def compare(b, model, what):
    for k, w in model.items():
        g = getattr(b, k)
        if isinstance(w, np.ndarray):
            check(isinstance(g, np.ndarray) and g.dtype == w.dtype, "%s: %s has type %s", what, k, getattr(g, "dtype", type(g)))
            check(same(g, w), "%s: %s is wrong: %s", what, k, describe(g, w))
        else:
            check(type(g) is type(w) and same(g, w), "%s: %s is %r, expected %r", what, k, g, w)


def refused(b, name, value, what, kinds=(TypeError, ValueError, OverflowError)):
    try:
        setattr(b, name, value)
    except kinds:
        return
    raise Violation("%s: assigning %s to %s was accepted and gave %r" % (what, repr(value)[:80], name, getattr(b, name)))


def new_model():
    m = {k: DEFAULTS.get(k, 0) for k in INTS}
    m.update({k: DEFAULTS[k] for k in FLOATS})
    m["asym"] = False
    m.update({k: np.zeros(0, np.int32) for k in IVEC})
    m.update({k: np.zeros(0) for k in FVEC})
    m.update({k: np.zeros((0, 0)) for k in MATS})
    return m


def ops(case, ctx):
    b = ctx.bx.Booz_xform()
    model = new_model()
    compare(b, model, "a new object")
    for k in OUTPUTS:
        v = getattr(b, k)
        check(np.size(v) == 0 or (k in ("ns_b", "mnboz") and v == 0), "a new object has %s=%r", k, v)
    if case["start"] != "new":
        cfg = {"asym": len(case["ops"]) % 2 == 0, "nfp": 3, "ns": 3, "modes": gen.canonical(1, 1), "modes_nyq": gen.canonical(1, 1),
               "extra": [1, 1, 1, 1], "seed": 5, "R0": 1.0, "B0": 1.0, "G": 1.0, "I": 0.1, "iota": 0.4, "r": 0.2, "lam": 0.2, "w": 0.2,
               "b": 0.2, "decay": 1.0, "consistent": True, "table": "canonical", "extreme": 0}
        vm.call(b, vm.build(cfg), True)
        b.verbose = 0
        if case["start"] == "ran":
            b.mboz, b.nboz = 3, 1
            b.run()
        model = snap(b, NAMES)
    outs = snap(b, OUTPUTS)
    effective = 0
    views = []
    for i, op in enumerate(case["ops"]):
        k, name = op["op"], op.get("name")
        what = "step %d (%s %s)" % (i + 1, k, name)
        if k == "set":
            integer = name in IVEC
            shape = tuple(op["shape"]) if name in MATS else (op["shape"][0],)
            x = values(op["seed"], shape, op["type"], integer, op["special"])
            want = plain(x, integer)
            y = lay(x, op["layout"])
            keep = np.array(y, copy=True) if isinstance(y, np.ndarray) else y
            setattr(b, name, y)
            if isinstance(y, np.ndarray):
                check(y.tobytes() == keep.tobytes(), "%s changed the assigned array", what)
                if y.flags.writeable:
                    y[...] = 1            # the object must have its own copy
            model[name] = want
            effective += want.size > 0
        elif k == "int":
            v, how = op["v"], op["how"]
            if how in ("int", "i8", "i4"):
                fits = -2**31 <= v < 2**31
                if how != "int" and not -2**63 <= v < 2**63:
                    how = "int"
                val = v if how == "int" else np.int64(v) if how == "i8" or not fits else np.int32(v)
                if fits:
                    setattr(b, name, val)
                    model[name] = v
                    effective += 1
                else:
                    refused(b, name, val, what)
            else:
                refused(b, name, {"float": v + 0.5, "str": str(v), "none": None, "list": [v]}[how], what)
        elif k == "float":
            v, how = SPECIAL[op["v"]], op["how"]
            if how in ("float", "f8"):
                setattr(b, name, v if how == "float" else np.float64(v))
                model[name] = v
            elif how == "f4":
                with np.errstate(all="ignore"):
                    f = np.float32(v)
                setattr(b, name, f)
                model[name] = float(f)
            elif how == "int":
                setattr(b, name, op["v"] - 3)
                model[name] = float(op["v"] - 3)
            else:
                refused(b, name, {"str": str(v), "none": None, "list": [v]}[how], what)
        elif k == "cross":
            peers = MATS if name in MATS else FVEC if name in FVEC else IVEC
            src = name if op["how"] == "self" else peers[op["other"] % len(peers)]
            f = {"same": lambda x: x, "self": lambda x: x[::-1], "rev": lambda x: x[::-1], "T": lambda x: x.T, "double": lambda x: x + x,
                 "half": lambda x: x[::2]}[op["how"]]
            if op["how"] == "double" and name in IVEC:
                f = lambda x: x
            want = plain(np.array(f(model[src]), copy=True), name in IVEC)
            setattr(b, name, f(getattr(b, src)))
            model[name] = want
            effective += want.size > 0
        elif k == "bad":
            z, how = np.zeros, op["how"]
            if how == "scalar":
                val = 3.5
            elif how in ("big", "frac", "nan"):
                if name not in IVEC:
                    continue
                val = {"big": np.array([1, 2**32 + 1]), "frac": [0, 1.5], "nan": [1, float("nan")]}[how]
            elif how == "2d":
                if name in MATS:
                    continue
                val = z((2, 3))
            else:
                val = {"str": "abc", "strs": ["a", "b"], "none": None, "dict": {"a": 1}, "object": object(), "3d": z((2, 2, 2)),
                       "ragged": [[1, 2], [3]]}[how]
            refused(b, name, val, what)
        elif k == "output":
            v = getattr(b, name)
            try:
                setattr(b, name, v)
            except AttributeError:
                pass
            else:
                raise Violation("%s: the output attribute could be assigned" % what)
        elif k in ("view", "selfview"):
            v = getattr(b, name)
            if isinstance(v, np.ndarray):
                if k == "view":
                    views.append((name, v, v.copy()))
                elif v.size:
                    try:
                        v[...] = 41
                    except ValueError:
                        pass
        elif k == "unknown":
            try:
                b.no_such_attribute = 1
            except AttributeError:
                pass
            else:
                raise Violation("%s: an unknown attribute was accepted" % what)
        elif k == "delete":
            try:
                delattr(b, name)
            except AttributeError:
                pass
            else:
                raise Violation("%s: the attribute was deleted" % what)
        compare(b, model, what)
        after = snap(b, OUTPUTS)
        for o in OUTPUTS:
            check(same(outs[o], after[o]), "%s changed the output %s", what, o)
        # arrays read earlier, as long as their attribute has not been assigned since
        views = [v for v in views if v[0] != name or k in ("view", "selfview", "bad", "output", "delete")]
        for n, v, old in views:
            check(same(v, old), "%s changed the array read from %s earlier", what, n)
    # known finding: arrays share the memory of the attribute they were read from
    b.iota = np.array([1.0, 2.0, 3.0])
    v = b.iota
    b.iota = np.array([4.0, 5.0, 6.0])
    if not np.array_equal(v, [1, 2, 3]):
        ctx.known("KF2", "an array read from an attribute changed when the attribute was assigned")
    return {"nontrivial": effective >= 3, "tags": ["ops", case["start"]] + sorted({o["op"] for o in case["ops"]})}


def transport(case, ctx):
    cfg, lays, types = case["cfg"], case["layouts"], case["types"]
    n = [0]

    def conv(k, x):
        i = n[0]
        n[0] += 1
        if not isinstance(x, np.ndarray):
            return x, x
        if x.dtype.kind == "f":
            y = x.astype(types[i % len(types)])
            p = y.astype(float)
        else:
            y, p = x.astype(["i4", "i8", "f8", ">i2"][i % 4]), x
        return lay(y, lays[i % len(lays)]), np.ascontiguousarray(p)
    raw = gen.materialize(cfg) if case["kind"] == "run" else vm.build(cfg)
    odd, norm = {}, {}
    for k, x in raw.items():
        odd[k], norm[k] = conv(k, x)
    res = []
    for a in (odd, norm):
        b = ctx.bx.Booz_xform()
        b.verbose = 0
        if case["kind"] == "run":
            for k, v in a.items():
                setattr(b, k, v)
            b.mboz, b.nboz = case["mboz"], case["nboz"]
            b.compute_surfs = lay(np.array(case["surfs"]), lays[0]) if a is odd else case["surfs"]
            b.run()
        else:
            vm.call(b, a, case["flux"])
        res.append(snap(b, ALL))
    for k in ALL:
        check(same(res[0][k], res[1][k]), "%s depends on the memory layout or type of the arrays passed: %s", k, describe(res[0][k], res[1][k]))
    return {"nontrivial": set(lays) != {"C"} or set(types) != {"f8"}, "tags": [case["kind"]] + sorted(set(lays))}


def alive(case, ctx):
    """Arrays keep their values after the object's name is gone."""
    b = ctx.bx.Booz_xform()
    b.verbose = 0
    for k, v in gen.materialize(case["cfg"]).items():
        setattr(b, k, v)
    b.mboz, b.nboz, b.compute_surfs = case["mboz"], case["nboz"], case["surfs"]
    b.run()
    views = {k: getattr(b, k) for k in ALL}
    old = snap(b, ALL)
    del b
    gc.collect()
    c = ctx.bx.Booz_xform()
    c.rmnc = np.full(old["rmnc"].shape, 9.0)
    junk = [np.full(old[k].shape, 8.0) for k in ALL if isinstance(old[k], np.ndarray)]
    for k in ALL:
        check(same(views[k], old[k]), "the array read from %s changed after its object was deleted", k)
    del junk
    return {"nontrivial": True, "tags": ["alive"]}


def outputs(case, ctx):
    """What the output attributes show against the numbers in files, also where those are not finite."""
    if case["how"] == "read":
        return c17.check_read(case, ctx)
    from scipy.io import netcdf_file
    b = ctx.bx.Booz_xform()
    b.verbose = 0
    for k, v in gen.materialize(case["cfg"]).items():
        setattr(b, k, v)
    c16.poison(b, *case["poison"])
    b.mboz, b.nboz, b.compute_surfs = case["mboz"], case["nboz"], case["surfs"]
    b.run()
    p = ctx.path("out.nc")
    b.write_boozmn(p)
    f = netcdf_file(p, mmap=False)
    names = {"bmnc_b": 1, "rmnc_b": 1, "zmns_b": 1, "gmn_b": 1, "pmns_b": -1, "bmns_b": 1, "rmns_b": 1, "zmnc_b": 1, "gmns_b": 1, "pmnc_b": -1}
    for k, sign in names.items():
        attr = {"gmn_b": "gmnc_b", "pmns_b": "numns_b", "pmnc_b": "numnc_b"}.get(k, k)
        got = getattr(b, attr)
        want = np.array(f.variables[k].data).T * sign if k in f.variables else np.zeros((0, 0))
        check(value_same(got, want), "the attribute %s does not show the computed numbers: %s", attr, describe(got, want))
    if case["cfg"]["asym"] is False:
        check("bmns_b" not in f.variables, "bmns_b in the file")
    for k, attr in (("ixm_b", "xm_b"), ("ixn_b", "xn_b")):
        check(value_same(getattr(b, attr), f.variables[k].data), attr)
    for k, attr in (("buco_b", "Boozer_I_all"), ("bvco_b", "Boozer_G_all")):
        check(value_same(getattr(b, attr), f.variables[k].data[1:]), attr)
    f.close()
    poisoned = not all(np.all(np.isfinite(getattr(b, k))) for k in ("bmnc_b", "gmnc_b", "numns_b", "rmnc_b"))
    return {"nontrivial": b.mnboz > 1, "tags": ["outputs", "not finite" if poisoned else "finite"]}


def run(case, ctx):
    return {"outputs": outputs, "ops": ops, "run": transport, "vmec": transport, "alive": alive}[case["kind"]](case, ctx)
