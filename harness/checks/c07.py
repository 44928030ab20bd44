"""C07: metamorphic rewritings of the input that leave the represented fields unchanged."""
import numpy as np
from hypothesis import strategies as st
import gen
import ref
from bx import check, close, ran, NONNYQ, NYQ, SYM_OUT, ASYM_OUT
from checks import c01

ID = "C07"
BUDGET = {"quick": 6000, "thorough": 80000}
RULE = ("random configuration and one to three rewritings (mode permutation, zero-amplitude modes, larger limits, split entries, "
        "sign convention of m=0 modes, nfp relabelling with scaled nboz); outputs of both runs are compared mode by mode. For "
        "relabelled nfp the tolerance includes the difference of the two reference spectra (aliasing). Non-trivial: a rewriting "
        "changed the input arrays, more than one mode in each table, and non-constant |B|")
FIELD = c01.FIELD
KINDS = ["perm", "perm_nyq", "pad", "pad_nyq", "limits", "split", "split_nyq", "flip", "flip_nyq", "nfp"]


@st.composite
def _s(draw):
    ops = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 2**16)), min_size=1, max_size=3))
    c = draw(gen.run_case(max_m=4, max_n=3))
    c["ops"] = [list(o) for o in ops]
    if any(o[0] == "nfp" for o in ops):
        c["cfg"]["nfp"] = draw(st.sampled_from([2, 3, 4, 6, 10]))
        c["cfg"]["r"], c["cfg"]["lam"], c["cfg"]["w"], c["cfg"]["b"] = [min(0.2, c["cfg"][k]) for k in ("r", "lam", "w", "b")]
        c["mboz"], c["nboz"] = min(c["mboz"], 12), min(c["nboz"], 4)
        if draw(st.booleans()):
            c["cfg"]["modes"] = [m for m in c["cfg"]["modes"] if m[0] < 3 and abs(m[1]) < 3]
            c["cfg"]["modes_nyq"] = [m for m in c["cfg"]["modes_nyq"] if m[0] < 3 and abs(m[1]) < 3]
            c["mboz"], c["nboz"] = 10, 4
    return c


def strategy(tier):
    return _s()


def rewrite(a, op, r):
    """-> (new inputs, changed?, nboz factor)"""
    a = dict(a)
    kind = op.split("_")[0]
    nyq = op.endswith("_nyq")
    names = [k for k in (NYQ if nyq else NONNYQ) if k in a]
    m, n, cnt = ("xm_nyq", "xn_nyq", "mnmax_nyq") if nyq else ("xm", "xn", "mnmax")
    lm, ln = ("mpol_nyq", "ntor_nyq") if nyq else ("mpol", "ntor")
    K = a[cnt]
    if kind == "perm":
        if K < 3:
            return a, False, 1
        o = np.concatenate([[0], 1 + np.argsort(gen.bulk(r, "perm", (K - 1,)))])
        for k in names + [m, n]:
            a[k] = a[k][o]
        return a, True, 1
    if kind == "pad":
        u = gen.bulk(r, "pad", (3,))
        add = 1 + r % 4
        newm = [int(abs(gen.bulk(r, "pm%d" % i, (1,))[0]) * (a[lm] + 2)) for i in range(add)]
        newn = [int(gen.bulk(r, "pn%d" % i, (1,))[0] * (a[ln] + 2)) for i in range(add)]
        newn = [1 if nyq and x == 0 == y else x for x, y in zip(newn, newm)]   # (0,0) carries G and I
        pos = 1 + int((u[0] + 1) / 2 * K) if K > 0 else 1
        for k in names:
            a[k] = np.insert(a[k], [min(pos, K)] * add, 0.0, axis=0)
        a[m] = np.insert(a[m], [min(pos, K)] * add, newm).astype(np.int32)
        a[n] = np.insert(a[n], [min(pos, K)] * add, [x * a["nfp"] for x in newn]).astype(np.int32)
        a[cnt] = K + add
        a[lm] = max(a[lm], max(newm))
        a[ln] = max(a[ln], max(abs(x) for x in newn))
        return a, True, 1
    if kind == "limits":
        for i, k in enumerate(("mpol", "ntor", "mpol_nyq", "ntor_nyq")):
            a[k] = a[k] + (r >> (3 * i)) % 8 + (40 if r % 7 == 3 and i == r % 4 else 0)
        return a, True, 1
    if kind == "split":
        if nyq and K < 2:
            return a, False, 1
        j = 1 + r % (K - 1) if nyq else r % K      # the (0,0) Nyquist mode carries G and I
        f = gen.bulk(r, "frac", (a["ns_in"],)) * 2
        for k in names:
            row = a[k][j]
            new = a[k].copy()
            new[j] = row * f
            a[k] = np.insert(new, K if r % 2 else 1, row - row * f, axis=0)
        for k in (m, n):
            a[k] = np.insert(a[k], K if r % 2 else 1, a[k][j]).astype(np.int32)
        a[cnt] = K + 1
        return a, True, 1
    if kind == "flip":
        sel = (a[m] == 0) & (a[n] != 0)
        if r % 2:
            sel = sel & (gen.bulk(r, "fl", (K,)) > 0)
        if not sel.any():
            return a, False, 1
        a[n] = np.where(sel, -a[n], a[n]).astype(np.int32)
        for k in names:
            if k.endswith("s"):
                a[k] = np.where(sel[:, None], -a[k], a[k])
        return a, True, 1
    if kind == "nfp":
        divs = [k for k in range(2, a["nfp"] + 1) if a["nfp"] % k == 0 and k <= 6]
        if not divs:
            return a, False, 1
        k = divs[r % len(divs)]
        a["nfp"] //= k
        a["ntor"] *= k
        a["ntor_nyq"] *= k
        return a, True, k
    raise AssertionError(op)


def run(case, ctx):
    cfg = case["cfg"]
    a = gen.materialize(cfg)
    a2, fac, changed = a, 1, []
    for op, r in case["ops"]:
        if op == "nfp" and fac > 1:
            continue
        a2, ch, k = rewrite(a2, op, r)
        fac *= k
        if ch:
            changed.append(op)
    mboz, nboz, S = case["mboz"], case["nboz"], case["surfs"]
    b = ran(ctx.bx, a, mboz, nboz, S)
    c = ran(ctx.bx, a2, mboz, nboz * fac, S)
    names = SYM_OUT + (ASYM_OUT if a["asym"] else [])
    where = {(m, n): i for i, (m, n) in enumerate(zip(c.xm_b.tolist(), c.xn_b.tolist()))}
    table = list(zip(b.xm_b.tolist(), b.xn_b.tolist()))
    check(all(t in where for t in table), "a mode of the first run is missing from the second")
    idx = np.array([where[t] for t in table])
    others = np.setdiff1d(np.arange(c.mnboz), idx)
    for k in ("Boozer_G", "Boozer_I", "Boozer_G_all", "Boozer_I_all", "s_b"):
        close(getattr(c, k), getattr(b, k), 1e-14 * np.max(np.abs(getattr(b, k)) + 1e-300), k + " after " + "+".join(changed))
    worst = 0.0
    for j, js in enumerate(S):
        o1, scale, _ = ref.spectra(a, js, mboz, nboz)
        if fac > 1:
            o2, scale2, _ = ref.spectra(a2, js, mboz, nboz * fac)
        for k in names:
            s = scale[FIELD[k]]
            tol = np.full(len(idx), 2 * c01.tolerance(s, mboz, nboz * fac))
            if fac > 1:
                d = np.abs(o1[k] - o2[k][idx])
                worst = max(worst, np.max(d) / (s + 1e-300))
                tol = tol + 2 * d
                d0 = np.abs(o2[k][others]) if len(others) else np.zeros(0)
                close(getattr(c, k)[others, j], np.zeros(len(others)), 2 * d0 + 2 * c01.tolerance(scale2[FIELD[k]], mboz, nboz * fac),
                      "%s column %d: modes not multiples of the original nfp" % (k, j))
            close(getattr(c, k)[idx, j], getattr(b, k)[:, j], tol, "%s column %d after %s" % (k, j, "+".join(changed)))
    ok = bool(changed) and gen.interesting_fields(cfg) and worst < 1e-4
    return {"nontrivial": ok, "tags": gen.cfg_tags(cfg) + sorted(set(changed)) + (["nfp resolved"] if fac > 1 and worst < 1e-4 else [])}
