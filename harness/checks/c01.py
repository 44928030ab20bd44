"""C01: output spectra against an independent numpy evaluation of the defining integrals."""
import numpy as np
import gen
import ref
from bx import check, close, ran, SYM_OUT, ASYM_OUT

ID = "C01"
BUDGET = {"quick": 8000, "thorough": 120000}
RULE = ("random configuration (mode tables, amplitudes, nfp, symmetry, resolution, surfaces) assigned through "
        "the attributes and run; every output column compared with the reference. Non-trivial: more than one "
        "mode in each input table, non-zero lambda or w, and non-constant |B|")
FIELD = dict([(k, v) for t in (ref.COS, ref.SIN) for k, v in t.items()])


def strategy(tier):
    return gen.run_case(strong=True)


def tolerance(scale, mboz, nboz):
    return scale * (2e-13 * (mboz + nboz + 20) * 5)


def compare(b, a, case, what=""):
    names = SYM_OUT + (ASYM_OUT if a["asym"] else [])
    cols = {k: getattr(b, k) for k in names}
    for k in names:
        check(cols[k].shape == (b.mnboz, len(case["surfs"])), "%s%s has shape %s", what, k, cols[k].shape)
    cache = {}
    for j, js in enumerate(case["surfs"]):
        if js not in cache:
            cache[js] = ref.spectra(a, js, case["mboz"], case["nboz"])
        out, scale, _ = cache[js]
        for k in names:
            close(cols[k][:, j], out[k], tolerance(scale[FIELD[k]], case["mboz"], case["nboz"]),
                  "%s%s column %d (surface %d)" % (what, k, j, js))


def run(case, ctx):
    a = gen.materialize(case["cfg"])
    b = ran(ctx.bx, a, case["mboz"], case["nboz"], case["surfs"])
    check(b.mnboz == len(ref.modes_b(case["mboz"], case["nboz"], a["nfp"])[0]), "mnboz is %d", b.mnboz)
    compare(b, a, case)
    tags = gen.cfg_tags(case["cfg"]) + (["nboz0"] if case["nboz"] == 0 else []) + (["mboz1"] if case["mboz"] == 1 else [])
    return {"nontrivial": gen.interesting_fields(case["cfg"]), "tags": tags}
