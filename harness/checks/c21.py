"""C21: what surfplot and wireplot draw."""
import os
import warnings
import numpy as np
from hypothesis import strategies as st
import plotsrc
import fakeplotly
import ref
from bx import check, close, describe, snap, same, ALL, Violation

ID = "C21"
BUDGET = {"quick": 2400, "thorough": 40000}
RULE = ("random completed run (object, written and re-read file, or boozmn file with random spectra) and random options. surfplot: the arrays, "
        "levels and options that reach Axes.contour/contourf against the series summed at the plotted angles, and extent and size of the grid. "
        "wireplot: all traces (recorded by a stand-in for plotly) against curves of constant angle and the surface computed independently. "
        "Non-trivial: more than one mode and, for surfplot, js > 0 or an asymmetric or non-square grid")
ASSUMPTIONS = ["plotly is not installed: what wireplot passes to plotly.graph_objects is judged, not its rendering",
               "the solid surface of wireplot may lie up to 0.002 inside the curves (documented in the code as a display aid)"]


@st.composite
def _s(draw):
    c = draw(plotsrc.source())
    c["what"] = draw(st.sampled_from(["surfplot", "surfplot", "wireplot", "wireplot", "badarg"]))
    if c["what"] == "surfplot":
        c["opt"] = {}
        for k, s in (("fill", st.booleans()), ("ntheta", st.integers(2, 13)), ("nphi", st.integers(2, 13)), ("ncontours", st.integers(2, 30))):
            if draw(st.integers(0, 3)):
                c["opt"][k] = draw(s)
        c["kw"] = draw(st.lists(st.sampled_from(["cmap", "alpha", "antialiased"]), unique=True, max_size=3))
    elif c["what"] == "wireplot":
        c["opt"] = {"ntheta": draw(st.integers(1, 6)), "nphi": draw(st.integers(1, 7))}
        for k, s in (("refine", st.integers(1, 4)), ("surf", st.booleans()), ("orig", st.booleans())):
            if draw(st.integers(0, 3)):
                c["opt"][k] = draw(s)
    c["js"] = draw(st.one_of(st.none(), st.integers(0, 11)))
    return c


def strategy(tier):
    return _s()


KW = {"cmap": "viridis", "alpha": 0.625, "antialiased": True}


def surfplot(case, ctx, arg, b):
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes
    calls = []
    saved = Axes.contourf, Axes.contour

    def rec(name, fn):
        def f(self, *a, **k):
            calls.append((name, a, dict(k)))
            return fn(self, *a, **k)
        return f
    opt = dict(case["opt"])
    js = 0
    if case["js"] is not None:
        js = opt["js"] = case["js"] % b.ns_b
    kw = {k: KW[k] for k in case["kw"]}
    Axes.contourf, Axes.contour = rec("contourf", saved[0]), rec("contour", saved[1])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            plt.figure(figsize=(2, 2))
            ctx.bx.surfplot(arg, **opt, **kw)
            title = plt.gcf().axes[0].get_title()
    finally:
        Axes.contourf, Axes.contour = saved
        plt.close("all")
    check(len(calls) == 1, "surfplot drew %d contour plots", len(calls))
    name, a, k = calls[0]
    check(name == ("contourf" if opt.get("fill", True) else "contour"), "surfplot(fill=%s) called %s", opt.get("fill", True), name)
    a = list(a)
    check(len(a) >= 3, "contour called with %d arrays", len(a))
    X, Y, Z = (np.asarray(x) for x in a[:3])
    levels = a[3] if len(a) > 3 else k.pop("levels", None)
    check(np.size(levels) == 1 and int(levels) == opt.get("ncontours", 25), "contour levels %r, asked for %s", levels, opt.get("ncontours", 25))
    for q, v in kw.items():
        check(k.get(q) == v, "option %s=%r reached matplotlib as %r", q, v, k.get(q))
    if X.ndim == 1:
        X, Y = np.meshgrid(X, Y)
    shape = (opt.get("ntheta", 50), opt.get("nphi", 90))
    check(X.shape == shape and Y.shape == shape and Z.shape == shape, "plotted grid %s %s %s for ntheta, nphi = %s", X.shape, Y.shape, Z.shape, shape)
    close(X, np.tile(np.linspace(0, 2 * np.pi / b.nfp, shape[1]), (shape[0], 1)), 1e-12, "surfplot toroidal angles")
    close(Y, np.tile(np.linspace(0, 2 * np.pi, shape[0])[:, None], (1, shape[1])), 1e-12, "surfplot poloidal angles")
    bc = b.bmnc_b[:, js]
    bs = b.bmns_b[:, js] if b.asym else None
    want = ref.evaluate(np.array(b.xm_b), np.array(b.xn_b), bc, bs, Y.ravel(), X.ravel()).reshape(shape)
    amp = np.abs(bc).sum() + (np.abs(bs).sum() if b.asym else 0)
    close(Z, want, 1e-11 * amp, "surfplot |B| (js=%d)" % js)
    import re
    nums = re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", title)
    check(nums and abs(float(nums[-1]) - b.s_b[js]) <= 1e-3 * abs(b.s_b[js]), "title %r for s=%r", title, b.s_b[js])
    return js > 0 or b.asym or shape[0] != shape[1]


def curves(R, Z, phi, ntheta, nphi, refine):
    X, Y = R * np.cos(phi), R * np.sin(phi)
    P = np.stack([X, Y, Z])
    return [P[:, i * refine, :] for i in range(ntheta + 1)] + [P[:, :, i * refine] for i in range(nphi + 1)]


def wireplot(case, ctx, arg, b):
    o = case["opt"]
    nt, nz, rf = o["ntheta"], o["nphi"], o.get("refine", 3)
    opt = dict(o)
    js = int(np.argmax(b.s_b))
    if case["js"] is not None:
        js = opt["js"] = case["js"] % b.ns_b
    with fakeplotly.installed(ctx.bx):
        fig = ctx.bx.wireplot(arg, **opt)
    check(fig is not None and hasattr(fig, "data"), "wireplot returned %r", fig)
    th, ze = np.meshgrid(np.linspace(0, 2 * np.pi, nt * rf + 1), np.linspace(0, 2 * np.pi, nz * rf + 1), indexing="ij")
    shape = th.shape
    t, z = th.ravel(), ze.ravel()
    xm, xn = np.array(b.xm_b), np.array(b.xn_b)

    def ser(c, s):
        return ref.evaluate(xm, xn, c, s, t, z).reshape(shape)

    def col(k):
        return np.array(getattr(b, k))[:, js]
    zero = np.zeros(len(xm))
    A = b.asym
    rc, rs, zs, zc = col("rmnc_b"), col("rmns_b") if A else zero, col("zmns_b"), col("zmnc_b") if A else zero
    R, Z = ser(rc, rs), ser(zc, zs)
    nu = ser(col("numnc_b") if A else zero, col("numns_b"))
    amp = sum(np.abs(x).sum() for x in (rc, rs, zs, zc)) + 1e-30
    phi = ze - nu
    want = [("Boozer", p) for p in curves(R, Z, phi, nt, nz, rf)]
    have_input = b.mnmax > 0
    if o.get("orig", True) and have_input:
        q = int(b.compute_surfs[js])
        m, n = np.array(b.xm), np.array(b.xn)
        g = lambda k: np.array(getattr(b, k))[:, q]
        zi = np.zeros(len(m))
        Ro = ref.evaluate(m, n, g("rmnc"), g("rmns") if A else zi, t, z).reshape(shape)
        Zo = ref.evaluate(m, n, g("zmnc") if A else zi, g("zmns"), t, z).reshape(shape)
        amp = max(amp, sum(np.abs(g(k)).sum() for k in ("rmnc", "zmns") + (("rmns", "zmnc") if A else ())))
        want += [("Original", p) for p in curves(Ro, Zo, ze, nt, nz, rf)]
    surf = [x for x in fig.data if x.kind == "surface"]
    lines = [x for x in fig.data if x.kind == "scatter3d"]
    check(len(surf) == (1 if o.get("surf", True) else 0), "%d surfaces with surf=%s", len(surf), o.get("surf", True))
    check(len(lines) == len(want), "wireplot drew %d curves, expected %d (%d poloidal, %d toroidal, orig=%s)", len(lines), len(want), nt, nz,
          o.get("orig", True))
    got = [np.stack([np.asarray(x.x, float), np.asarray(x.y, float), np.asarray(x.z, float)]) for x in lines]
    left = list(range(len(got)))
    tol = 1e-11 * amp * (1 + np.abs(nu).max())
    colours = {"Boozer": set(), "Original": set()}
    for kind, p in want:
        for i in left:
            if got[i].shape == p.shape and np.all(np.abs(got[i] - p) <= tol):
                left.remove(i)
                colours[kind].add(repr(sorted((lines[i].kw.get("line") or {}).items())))
                break
        else:
            raise Violation("wireplot lacks a curve of constant %s angle" % kind)
    if len(colours["Original"]) == 1 and len(colours["Boozer"]) == 1 and case["src"] != "file" and np.abs(nu).max() > 1e-3:
        check(colours["Original"] != colours["Boozer"], "Boozer and original curves look the same")
    names = sorted(str(x.kw.get("name")) for x in lines if x.kw.get("showlegend"))
    check(names == sorted({k + " coordinates" for k, _ in want}), "legend entries of wireplot: %s", names)
    if surf:
        S = np.stack([np.asarray(surf[0].x, float), np.asarray(surf[0].y, float), np.asarray(surf[0].z, float)])
        P = np.stack([R * np.cos(phi), R * np.sin(phi), Z])
        check(S.shape == P.shape, "surface of shape %s for curves of %s", S.shape, P.shape)
        tR = ser(xm * rs, -xm * rc)
        tZ = ser(xm * zs, -xm * zc)
        L = np.hypot(tR, tZ)
        d = S - P
        dR = d[0] * np.cos(phi) + d[1] * np.sin(phi)
        dT = -d[0] * np.sin(phi) + d[1] * np.cos(phi)
        ok = L > 1e-6 * amp                 # elsewhere the normal is undefined
        tol2 = 1e-6 + 1e-14 * amp          # S - P cancels: amp may be huge
        for what, v in (("displacement beyond 0.002", np.hypot(dR, d[2]) - 0.002), ("displacement out of the plane", np.abs(dT)),
                        ("displacement along the surface", np.abs(dR * tR + d[2] * tZ) / np.where(ok, L, 1))):
            check(not np.any(ok & ~(v <= tol2)), "the surface of wireplot: %s %r", what, float(np.max(np.where(ok, v, 0))))
        if A or np.any(ok):
            # inside: along -(outward normal) for a surface traversed counter-clockwise, the same side everywhere
            side = (dR * tZ - d[2] * tR)[ok]
            check(np.all(side <= 1e-9) or not ok.any(), "the surface of wireplot lies outside the curves somewhere")
    return True


def run(case, ctx):
    arg, b = plotsrc.make(case, ctx)
    before = snap(b, ALL)
    try:
        if case["what"] == "surfplot":
            nt = surfplot(case, ctx, arg, b)
        elif case["what"] == "wireplot":
            nt = wireplot(case, ctx, arg, b)
        else:
            nt = False
            for bad in (3, None, [b], b"boozmn_plot.nc"):
                for fn in ("surfplot", "wireplot", "symplot", "modeplot"):
                    try:
                        getattr(ctx.bx, fn)(bad)
                    except ValueError:
                        continue
                    except Exception as e:
                        raise Violation("%s(%r) raised %s instead of ValueError" % (fn, type(bad).__name__, type(e).__name__))
                    raise Violation("%s(%r) did not raise" % (fn, type(bad).__name__))
        after = snap(b, ALL)
        for k in ALL:
            check(same(before[k], after[k]), "%s changed %s", case["what"], k)
    finally:
        p = ctx.path("boozmn_plot.nc")
        if os.path.exists(p):
            os.unlink(p)
    return {"nontrivial": bool(nt and b.mnboz > 1), "tags": [case["what"]] + plotsrc.tags(case, b)}
