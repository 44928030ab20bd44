"""C09: every surface is transformed independently of the others."""
import numpy as np
from hypothesis import strategies as st
import gen
from bx import check, ran, same, describe, SYM_OUT, ASYM_OUT, NONNYQ, NYQ
from checks import c01

ID = "C09"
BUDGET = {"quick": 6000, "thorough": 80000}
RULE = ("random configuration with several surfaces; two lists of surfaces (any order, duplicates) are run, the second one with "
        "the data of surfaces that are not in it replaced by NaN, zeros, huge or other numbers; columns of common surfaces must "
        "be equal bitwise or to 1e-9 of the largest amplitude of that quantity and one column per run is compared with the reference. Non-trivial: at least two surfaces and the "
        "lists differ or other data changed")
JUNK = ["keep", "nan", "zero", "huge", "other", "remove"]


@st.composite
def _s(draw):
    c = draw(gen.run_case(min_ns=2, max_ns=6, strong=True))
    ns = c["cfg"]["ns"]
    if draw(st.booleans()):
        c["surfs2"] = draw(st.lists(st.integers(0, ns - 1), min_size=1, max_size=ns + 3))
    else:
        c["surfs2"] = list(draw(st.permutations(c["surfs"])))[: draw(st.integers(1, len(c["surfs"])))]
    c["junk"] = draw(st.sampled_from(JUNK))
    return c


def strategy(tier):
    return _s()


def spoil(a, S, kind, seed):
    a = dict(a)
    other = np.array([j not in S for j in range(a["ns_in"])])
    if kind == "keep":
        return a
    for k in [x for x in NONNYQ + NYQ if x in a] + ["iota", "s_in"]:
        v = a[k].copy()
        new = {"nan": np.nan, "zero": 0.0, "huge": 1e200}.get(kind)
        if kind == "other":
            new = gen.bulk(seed, "sp" + k, v.shape)[..., other] * 3
        v[..., other] = new
        a[k] = v
    return a


def cut(a, S):
    """Only the surfaces in S exist; returns inputs and the new indices."""
    keep = sorted(set(S))
    a = dict(a)
    for k in [x for x in NONNYQ + NYQ if x in a] + ["iota", "s_in"]:
        a[k] = np.ascontiguousarray(a[k][..., keep])
    a["ns_in"] = len(keep)
    return a, [keep.index(s) for s in S]


def agree(v, w, name, c1, c2):
    """Bitwise, or within rounding of the largest amplitude of the same quantity (sums over a column may be vectorised
    differently depending on where the column lies in memory)."""
    if same(np.asarray(v), np.asarray(w)):
        return True
    group = [k for k in c1 if name[-5:] in ("mnc_b", "mns_b") and (k[0] == name[0] or k[0] + name[0] in ("rz", "zr"))]
    if not group or np.shape(v) != np.shape(w):
        return False
    scale = max(np.max(np.abs(np.concatenate([c1[k], c2[k]]))) for k in group)
    with np.errstate(all="ignore"):
        return bool(np.all(np.abs(v - w) <= 1e-9 * scale)) and np.isfinite(scale)


def run(case, ctx):
    cfg = case["cfg"]
    a = gen.materialize(cfg)
    mboz, nboz, S, S2 = case["mboz"], case["nboz"], case["surfs"], case["surfs2"]
    b = ran(ctx.bx, a, mboz, nboz, S)
    if case["junk"] == "remove":
        a2, idx2 = cut(a, S2)
    else:
        a2, idx2 = spoil(a, S2, case["junk"], cfg["seed"]), S2
    c = ran(ctx.bx, a2, mboz, nboz, idx2)
    names = SYM_OUT + (ASYM_OUT if a["asym"] else [])
    first = {}
    for run_, lst, what in ((b, S, "first"), (c, S2, "second")):
        check(run_.ns_b == len(lst), "ns_b of the %s run is %d", what, run_.ns_b)
        for j, js in enumerate(lst):
            col = {k: getattr(run_, k)[:, j] for k in names}
            col.update({k: getattr(run_, k)[j] for k in ("Boozer_G", "Boozer_I", "s_b")})
            if js not in first:
                first[js] = (col, what, j)
                continue
            for k, v in col.items():
                w = first[js][0][k]
                check(agree(v, w, k, col, first[js][0]), "%s of surface %d differs between column %d of the %s run and column %d of the %s run: %s",
                      k, js, first[js][2], first[js][1], j, what, describe(v, w))
    c01.compare(b, a, dict(case, surfs=S), "first run: ") if len(S) <= 4 else None
    if case["junk"] != "remove":
        c01.compare(c, a, dict(case, surfs=S2), "second run: ") if len(S2) <= 4 else None
    return {"nontrivial": len(set(S) | set(S2)) > 1 and (S != S2 or case["junk"] != "keep"),
            "tags": gen.cfg_tags(cfg) + ["others: " + case["junk"]] + (["duplicates"] if len(set(S2)) < len(S2) else [])
            + (["unsorted"] if S2 != sorted(S2) else [])}
