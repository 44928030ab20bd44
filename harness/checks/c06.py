"""C06: symmetric data in symmetric and in asymmetric mode; unused arrays are inert."""
import numpy as np
from hypothesis import strategies as st
import gen
import ref
from bx import check, close, ran, same, describe, ASYM_IN, NONNYQ, SYM_OUT, ASYM_OUT, OUT_MISC
from checks import c01

ID = "C06"
BUDGET = {"quick": 6000, "thorough": 80000}
RULE = ("random symmetric configuration, run with asym=False, with asym=True and zero sine arrays, and with asym=False plus "
        "arbitrary content (zeros, random, NaN, wrong shapes) in the six unused arrays. Non-trivial: more than one mode in "
        "each input table, non-zero lambda or w, and non-constant |B|")
FIELD = c01.FIELD
JUNK = ["random", "nan", "zeros", "shape", "empty", "huge"]


@st.composite
def _s(draw):
    c = draw(gen.run_case(asym=False, strong=True))
    c["junk"] = {k: draw(st.sampled_from(JUNK)) for k in ASYM_IN}
    return c


def strategy(tier):
    return _s()


def junk(kind, seed, name, shape):
    if kind == "zeros":
        return np.zeros(shape)
    if kind == "nan":
        return np.full(shape, np.nan)
    if kind == "shape":
        return gen.bulk(seed, "j" + name, (shape[1] + 2, max(shape[0] - 1, 1)))
    if kind == "empty":
        return np.zeros((0, 0))
    return gen.bulk(seed, "j" + name, shape) * (1e300 if kind == "huge" else 1.0)


def run(case, ctx):
    cfg = case["cfg"]
    a = gen.materialize(cfg)
    args = (case["mboz"], case["nboz"], case["surfs"])
    b = ran(ctx.bx, a, *args)
    shape = {k: a["rmnc"].shape if k in NONNYQ else a["bmnc"].shape for k in ASYM_IN}
    # the same data declared asymmetric
    a2 = dict(a, asym=True, **{k: np.zeros(shape[k]) for k in ASYM_IN})
    c = ran(ctx.bx, a2, *args)
    check(np.array_equal(b.xm_b, c.xm_b) and np.array_equal(b.xn_b, c.xn_b), "mode tables differ between the symmetry classes")
    for k in ("Boozer_G", "Boozer_I", "Boozer_G_all", "Boozer_I_all", "s_b"):
        close(getattr(c, k), getattr(b, k), 0.0, k + " of the asym=True run")
    for j, js in enumerate(case["surfs"]):
        f = ref.fields(a, js, *ref.grid(case["mboz"], case["nboz"], a["nfp"])[:2])
        for names in (SYM_OUT, ASYM_OUT):
            for k in names:
                tol = c01.tolerance(f["amp"][FIELD[k]], case["mboz"], case["nboz"]) + 1e-300
                want = getattr(b, k)[:, j] if k in SYM_OUT else np.zeros(b.mnboz)
                close(getattr(c, k)[:, j], want, tol, "%s column %d of the asym=True run" % (k, j))
    # unused arrays
    a3 = dict(a, **{k: junk(case["junk"][k], cfg["seed"], k, shape[k]) for k in ASYM_IN})
    d = ran(ctx.bx, a3, *args)
    for k in OUT_MISC + SYM_OUT + ASYM_OUT:
        x, y = getattr(d, k), getattr(b, k)
        check(same(x, y), "%s depends on the unused arrays with asym=False: %s", k, describe(x, y))
    return {"nontrivial": gen.interesting_fields(cfg), "tags": gen.cfg_tags(cfg) + (["nboz0"] if case["nboz"] == 0 else [])}
