"""C22: what symplot and modeplot draw."""
import os
import re
import warnings
import numpy as np
from hypothesis import strategies as st
import plotsrc
from bx import check, snap, same, ALL, Violation

ID = "C22"
BUDGET = {"quick": 2400, "thorough": 40000}
RULE = ("random completed run (object, written and re-read file, or boozmn file with random spectra including zeros, ties and wide ranges) and "
        "random options of symplot or modeplot; every line, label and legend entry of the resulting matplotlib axes is compared with a model of "
        "the documented selection and grouping. Non-trivial: at least two modes drawn and one option differs from its default")
ASSUMPTIONS = ["a reference line at 0 on linear axes is allowed, as are legend-only duplicates of one mode per group"]
GROUPS = {"background": "b", "QA": [0, 0.7, 0], "mirror": [0.7, 0.5, 0], "helical": [1, 0, 1], "plus": "gray", "minus": "c"}


@st.composite
def _s(draw):
    c = draw(plotsrc.source())
    c["what"] = draw(st.sampled_from(["symplot", "modeplot"]))
    o = {}
    for k, s in (("sqrts", st.booleans()), ("log", st.booleans()), ("B0", st.booleans()), ("ymin", st.sampled_from([1e-3, 1e-9, 0.5]))):
        if draw(st.integers(0, 2)):
            o[k] = draw(s)
    if c["what"] == "symplot":
        for k, s in (("max_m", st.integers(0, 6)), ("max_n", st.integers(0, 5)), ("helical_detail", st.booleans())):
            if draw(st.integers(0, 2)):
                o[k] = draw(s)
    elif draw(st.integers(0, 4)):
        o["nmodes"] = draw(st.integers(1, 30))
    if draw(st.booleans()):
        nfp = c["nfp"] if c["src"] == "file" else c["cfg"]["nfp"]
        M, N = draw(st.one_of(st.integers(-1, 2), st.integers(-4, 6))), draw(st.one_of(st.integers(-2, 2), st.integers(-6, 6)))
        o["remove_helicity"] = [M, N * draw(st.sampled_from([1, nfp, nfp]))]
    c["opt"] = o
    c["kw"] = draw(st.lists(st.sampled_from(["linewidth", "alpha", "marker"]), unique=True, max_size=3))
    c["legend"] = draw(st.booleans())
    return c


def strategy(tier):
    return _s()


KW = {"linewidth": 2.625, "alpha": 0.5, "marker": "x"}


def group(m, n, nfp, detail):
    if n == 0:
        return "background" if m == 0 else "QA"
    if m == 0:
        return "mirror"
    if detail and n == nfp * m:
        return "plus"
    if detail and n == -nfp * m:
        return "minus"
    return "helical"


def run(case, ctx):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    arg, b = plotsrc.make(case, ctx)
    before = snap(b, ALL)
    o = dict(case["opt"])
    if "remove_helicity" in o:
        o["remove_helicity"] = tuple(o["remove_helicity"])
    kw = {k: KW[k] for k in case["kw"]}
    if case["legend"]:
        kw["legend_args"] = {"loc": "upper left", "fontsize": 7}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            plt.figure(figsize=(2, 2))
            getattr(ctx.bx, case["what"])(arg, **o, **kw)
            fig = plt.gcf()
            check(len(fig.axes) == 1, "%d axes", len(fig.axes))
            ax = fig.axes[0]
            lines = list(ax.lines)
            log = o.get("log", True)
            check(ax.get_yscale() == ("log" if log else "linear"), "log=%s gives a %s y axis", log, ax.get_yscale())
            if log and "ymin" in o:
                check(abs(ax.get_ylim()[0] / o["ymin"] - 1) < 1e-9, "ymin=%r gives the lower limit %r", o["ymin"], ax.get_ylim()[0])
            low = ax.get_ylim()[0]
            leg = ax.get_legend()
            labels = [t.get_text() for t in leg.get_texts()] if leg else None
            if case["legend"] and leg is not None and labels:
                check(leg._loc == 2 and all(abs(t.get_fontsize() - 7) < 1e-9 for t in leg.get_texts()), "legend_args were not used")
        after = snap(b, ALL)
        for k in ALL:
            check(same(before[k], after[k]), "%s changed %s", case["what"], k)
        # model
        xm, xn = np.array(b.xm_b), np.array(b.xn_b)
        data = np.array(b.bmnc_b)
        if "remove_helicity" in o:
            M, N = o["remove_helicity"]
            data = np.where((N * xm == M * xn)[:, None], 0.0, data)
        if log and "ymin" not in o:
            # 1e-4 of the largest amplitude (all, those left by remove_helicity, or those drawn)
            tops = [np.max(b.bmnc_b), np.max(data)] + ([np.max(data[1:])] if len(data) > 1 and not o.get("B0", True) else [])
            if min(tops) > 0:
                check(0.99e-4 * min(tops) <= low <= 1.01e-4 * max(tops), "the lower limit is %r by default, the largest amplitude %r", low, max(tops))
        rad = np.sqrt(b.s_b) if o.get("sqrts", False) else np.array(b.s_b)
        shown = np.abs(data) if log else data
        if not log:
            zero = [l for l in lines if np.array_equal(l.get_xdata(), [0, 1]) and np.array_equal(l.get_ydata(), [0, 0]) and l.get_label().startswith("_")]
            check(len(zero) <= 1, "%d reference lines", len(zero))
            lines = [l for l in lines if l not in zero]
        for l in lines:
            x = np.asarray(l.get_xdata(), float)
            check(x.shape == rad.shape and np.allclose(x, rad, rtol=1e-13, atol=0), "a line has the abscissa %s, expected %s", x, rad)
            for k, v in kw.items():
                if k != "legend_args":
                    check(getattr(l, "get_" + k)() == v, "option %s=%r did not reach a line", k, v)
        B0 = o.get("B0", True)
        named = [l for l in lines if not l.get_label().startswith("_")]
        check((labels or []) == [l.get_label() for l in named], "legend %s for lines labelled %s", labels, [l.get_label() for l in named])
        if case["what"] == "symplot":
            symplot(o, b, xm, xn, shown, lines, B0, to_rgba)
        else:
            modeplot(o, b, xm, xn, shown, data, lines, B0)
    finally:
        plt.close("all")
        p = ctx.path("boozmn_plot.nc")
        if os.path.exists(p):
            os.unlink(p)
    return {"nontrivial": bool(len(lines) > 2 and o), "tags": [case["what"]] + plotsrc.tags(case, b) + sorted(o)}


def symplot(o, b, xm, xn, shown, lines, B0, to_rgba):
    nfp, detail = b.nfp, o.get("helical_detail", False)
    mm, nn = o.get("max_m", 20), o.get("max_n", 20)

    def rgb(l):
        return to_rgba(l.get_color())[:3]
    left = sorted(lines, key=lambda l: not l.get_label().startswith("_"))       # unlabelled first
    drawn = set()
    for j in range(len(xm)):
        if xm[j] > mm or abs(xn[j]) > nn * nfp or (j == 0 and not B0):
            continue
        g = group(xm[j], xn[j], nfp, detail)
        drawn.add(g)
        for l in left:
            if np.array_equal(np.asarray(l.get_ydata(), float), shown[j]) and rgb(l) == to_rgba(GROUPS[g])[:3]:
                left.remove(l)
                break
        else:
            raise Violation("symplot draws no line for mode (%d,%d) in the colour of group %s" % (xm[j], xn[j], g))
    seen = {}
    for l in left:
        check(not l.get_label().startswith("_"), "symplot draws an additional line %s", np.asarray(l.get_ydata()))
    for l in [l for l in lines if not l.get_label().startswith("_")]:
        gs = [g for g in GROUPS if to_rgba(GROUPS[g])[:3] == rgb(l)]
        check(len(gs) == 1, "a legend entry has the colour %s", l.get_color())
        g = gs[0]
        check(g not in seen, "two legend entries for group %s", g)
        seen[g] = l.get_label()
        check(g != "background" or B0, "a background entry with B0=False")
        check(detail or g not in ("plus", "minus"), "an entry for group %s without helical_detail", g)
        t = l.get_label().lower()
        want = {"background": "background", "QA": "quasiaxisymmetric", "mirror": "mirror", "helical": "helical", "plus": "helical", "minus": "helical"}[g]
        check(want in t, "legend entry of group %s is labelled %r", g, l.get_label())
        if g in ("plus", "minus"):
            check(("-" in t) == (g == "minus"), "legend entry of group %s is labelled %r", g, l.get_label())
        ok = any(group(xm[j], xn[j], nfp, detail) == g and np.array_equal(np.asarray(l.get_ydata(), float), shown[j]) for j in range(len(xm)))
        check(ok, "the legend entry of group %s shows no mode of this group", g)
    check(drawn <= set(seen), "groups without a legend entry: %s", sorted(drawn - set(seen)))


def modeplot(o, b, xm, xn, shown, data, lines, B0):
    nm = o.get("nmodes", 10)
    avail = list(range(0 if B0 else 1, len(xm)))
    check(len(lines) == min(nm, len(avail)), "modeplot(nmodes=%d) draws %d lines of %d modes", nm, len(lines), len(avail))
    outer = int(np.argmax(b.s_b))
    size = np.abs(data[:, outer])
    used, last = [], np.inf
    for l in lines:
        num = re.search(r"m[^-\d]*(-?\d+).*?n[^-\d]*(-?\d+)", l.get_label())
        check(num is not None, "modeplot label %r", l.get_label())
        m, n = int(num.group(1)), int(num.group(2))
        js = [j for j in avail if xm[j] == m and xn[j] == n]
        check(len(js) == 1, "modeplot draws mode (%d,%d), which is not available", m, n)
        j = js[0]
        check(j not in used, "modeplot draws mode (%d,%d) twice", m, n)
        check(np.array_equal(np.asarray(l.get_ydata(), float), shown[j]), "the line labelled (%d,%d) shows %s, expected %s", m, n, l.get_ydata(), shown[j])
        check(size[j] <= last, "modeplot is not in decreasing order at (%d,%d)", m, n)
        last = size[j]
        used.append(j)
    rest = [j for j in avail if j not in used]
    if rest and used:
        k = max(rest, key=lambda j: size[j])
        check(size[k] <= last, "modeplot leaves out mode (%d,%d) of size %g and draws one of size %g", xm[k], xn[k], size[k], last)
