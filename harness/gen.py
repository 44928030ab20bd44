"""Case generators.

A case ("recipe") is a small JSON document drawn by Hypothesis.  The bulk numerical
data of a configuration are a deterministic function of a recipe (`materialize`), so a
recipe is a complete replay file and shrinks well.
"""
import hashlib
import math
import numpy as np
from hypothesis import strategies as st
import real


def bulk(seed, tag, shape):
    """Deterministic numbers in (-1, 1): a pure function of (seed, tag, shape)."""
    h = hashlib.sha256(("%s|%s" % (seed, tag)).encode()).digest()
    key = np.frombuffer(h[:8], dtype="<u8")[0]
    n = int(np.prod(shape)) if len(shape) else 1
    x = np.arange(1, n + 1, dtype=np.uint64) * np.uint64(0x9E3779B97F4A7C15) + key
    with np.errstate(over="ignore"):
        x ^= x >> np.uint64(30)
        x *= np.uint64(0xBF58476D1CE4E5B9)
        x ^= x >> np.uint64(27)
        x *= np.uint64(0x94D049BB133111EB)
        x ^= x >> np.uint64(31)
    u = (x >> np.uint64(11)).astype(np.float64) / 2.0**53
    return (2 * u - 1).reshape(shape)


def canonical(mtop, ntop):
    """VMEC ordering; m = 0..mtop, |n| <= ntop (n>=0 for m=0)."""
    out = []
    for m in range(mtop + 1):
        for n in range(0 if m == 0 else -ntop, ntop + 1):
            out.append([m, n])
    return out


def _mode_table(draw, max_m, max_n, allow_negative_m0):
    kind = draw(st.sampled_from(["canonical", "canonical", "sparse"]))
    if kind == "canonical":
        return canonical(draw(st.integers(0, max_m)), draw(st.integers(0, max_n)))
    pair = st.tuples(st.integers(0, max_m + 3), st.integers(-max_n - 2, max_n + 2))
    lst = draw(st.lists(pair, max_size=10, unique=True))
    out = [[0, 0]]
    for m, n in lst:
        if (m, n) == (0, 0):
            continue
        if m == 0 and n < 0 and not allow_negative_m0:
            n = -n
        if [m, n] not in out:
            out.append([m, n])
    return out


STRENGTHS = [0.0, 0.05, 0.2, 0.2, 0.4, 0.4]


@st.composite
def config(draw, asym=None, max_ns=4, max_m=4, max_n=3, allow_negative_m0=True,
           strong=False, same_tables=False, max_nfp=12, mode_style=None, min_ns=1, wide=True, tall=False):
    """A configuration given on the library's own radial grid."""
    cfg = {}
    if wide:
        # a few per cent of the cases are much larger in one respect
        w = draw(st.integers(0, 59))
        if w == 1:
            max_ns, min_ns = 120, max(min_ns, 8)
        elif w == 2:
            max_m = 24
        elif w == 3:
            max_n = 20
        elif w == 4:
            max_nfp = 60
        elif w == 6 and tall:
            max_ns, min_ns, max_m, max_n = 1300, 130, 1, 1
    cfg["asym"] = draw(st.booleans()) if asym is None else asym
    cfg["nfp"] = draw(st.one_of(st.integers(1, max_nfp), st.sampled_from([1, 2, 3, 5])))
    if max_nfp >= 8 and draw(st.integers(0, 39)) == 23:
        cfg["nfp"] = draw(st.integers(13, 300))
    cfg["ns"] = draw(st.integers(min_ns, max_ns))
    if mode_style == "canonical":
        cfg["modes"] = canonical(draw(st.integers(0, max_m)), draw(st.integers(0, max_n)))
        cfg["modes_nyq"] = cfg["modes"] if same_tables else canonical(
            draw(st.integers(0, max_m + 2)), draw(st.integers(0, max_n + 2)))
    else:
        cfg["modes"] = _mode_table(draw, max_m, max_n, allow_negative_m0)
        cfg["modes_nyq"] = cfg["modes"] if same_tables else _mode_table(
            draw, max_m + 1, max_n + 1, allow_negative_m0)
    cfg["extra"] = draw(st.lists(st.sampled_from([0, 1, 1, 2, 5]), min_size=4, max_size=4))
    cfg["seed"] = draw(st.integers(0, 2**32 - 1))
    cfg["R0"] = draw(st.sampled_from([1.0, 1.0, 5.5, 0.3]))
    cfg["B0"] = draw(st.sampled_from([1.0, 1.0, 2.5, 5.0, 0.1]))
    cfg["G"] = draw(st.sampled_from([1.0, -1.0, 3.7, -12.0]))
    cfg["I"] = draw(st.sampled_from([0.0, 0.1, -0.2, 0.05, 1e-5, 3.0]))
    cfg["iota"] = draw(st.sampled_from([0.0, 0.4, -0.6, 1.1, 2.3]))
    if draw(st.integers(0, 15)) == 9:           # reversed-field pinches
        cfg["iota"] = draw(st.sampled_from([6.5, -9.0, 31.0, -200.0]))
    cfg["rational"] = None                      # iota at, or very near, a rational number
    if draw(st.integers(0, 15)) == 11:
        cfg["rational"] = [draw(st.sampled_from([1.0, 0.5, -1.0, 2.0, 1 / 3, 0.2])), draw(st.sampled_from([0.0, 5e-4, 2e-5, 1e-7]))]
    S = STRENGTHS + ([0.7] if strong else [])
    cfg["r"] = draw(st.sampled_from(S))
    cfg["lam"] = draw(st.sampled_from(S))
    cfg["w"] = draw(st.sampled_from(S))
    cfg["b"] = draw(st.sampled_from(S))
    cfg["decay"] = draw(st.sampled_from([1.0, 0.5, 0.25]))
    cfg["consistent"] = draw(st.sampled_from([True, True, False]))
    # other units now and then: nothing may depend on the size of a length, a field or a current
    u = draw(st.sampled_from([None] * 12 + [0, 1, 2]))
    if u is not None:
        k = ["R0", "B0", "G"][u]
        cfg[k] *= draw(st.sampled_from([1e-3, 1e3, 1e-9, 1e6, 1e-6, 1e-14, 1e14]))
        if k == "G":
            cfg["I"] *= cfg["G"]
    cfg["free_s"] = draw(st.booleans())
    # parts that are exactly zero (whole quantities, or single modes of single quantities), a
    # constant part of lambda, deep magnetic wells, and toroidal current that dominates G + iota I
    cfg["kill"] = draw(st.sampled_from([0] * 7 + [1, 2, 2]))
    cfg["lam00"] = draw(st.sampled_from([0.0, 0.0, 0.3]))
    if draw(st.integers(0, 24)) == 17:
        cfg["b"] = draw(st.sampled_from([0.85, 0.95]))
    cfg["Idom"] = draw(st.integers(0, 11)) == 7
    cfg["GIzero"] = draw(st.integers(0, 7)) == 5        # G (or I) is exactly zero on some surfaces
    cfg["iz"] = draw(st.sampled_from([0] * 12 + [1, 2]))  # iota exactly (or nearly) zero on some surfaces
    cfg["junk00"] = draw(st.integers(0, 5)) == 3        # amplitudes of sin(0), which mean nothing
    cfg["Rsmall"] = draw(st.integers(0, 15)) == 11      # the average of R is not its largest part: R takes both signs
    if wide and w == 5 and mode_style is None and not same_tables and real.names(asym):
        # one of the equilibria that come with the repository, some surfaces of it, perhaps perturbed
        cfg["real"] = draw(st.sampled_from(real.names(asym)))
        v = real.load(cfg["real"])
        n = draw(st.integers(min_ns, max(min_ns, min(max_ns, 4))))
        cfg["pick"] = sorted(draw(st.lists(st.integers(0, v["ns"] - 2), min_size=n, max_size=n, unique=True)))
        cfg["perturb"] = draw(st.sampled_from([0.0, 0.0, 0.1]))
        cfg["asym"], cfg["nfp"], cfg["ns"] = v["asym"], v["nfp"], n
        cfg["modes"], cfg["modes_nyq"] = real.tables(v)
        cfg["consistent"] = cfg["free_s"] = cfg["Idom"] = False
        cfg["kill"], cfg["lam00"], cfg["GIzero"], cfg["iz"], cfg["junk00"], cfg["Rsmall"] = 0, 0.0, False, 0, False, False
        cfg["r"] = cfg["lam"] = cfg["w"] = cfg["b"] = 0.2
    return cfg


def _materialize_real(cfg):
    import vm
    a = dict(vm.half(real.load(cfg["real"]), False))
    p = cfg["pick"]
    for k in real.ORDER + ["iota", "s_in"]:
        if k in a:
            x = np.array(a[k][..., p])
            if cfg["perturb"] and k != "s_in":
                x = x * (1 + cfg["perturb"] * bulk(cfg["seed"], "re" + k, x.shape))
            a[k] = x
    a["ns_in"] = len(p)
    for k in ("compute_surfs", "mboz", "nboz", "phip", "chi", "pres", "phi", "toroidal_flux"):
        a.pop(k)
    return a


def limits(cfg):
    """mpol, ntor, mpol_nyq, ntor_nyq"""
    e = cfg["extra"]
    m = max(a for a, _ in cfg["modes"]); n = max(abs(b) for _, b in cfg["modes"])
    mq = max(a for a, _ in cfg["modes_nyq"]); nq = max(abs(b) for _, b in cfg["modes_nyq"])
    return m + e[0], n + max(e[1] - 1, 0), mq + max(e[2] - 1, 0), nq + max(e[3] - 1, 0)


def materialize(cfg):
    """dict of the library's input attributes (numpy arrays and scalars)."""
    if cfg.get("real") and cfg["asym"] == real.load(cfg["real"])["asym"]:
        return _materialize_real(cfg)
    a = {}
    nfp, ns, asym = cfg["nfp"], cfg["ns"], cfg["asym"]
    modes = np.array(cfg["modes"], dtype=int).reshape(-1, 2)
    nyq = np.array(cfg["modes_nyq"], dtype=int).reshape(-1, 2)
    a["asym"] = asym
    a["nfp"] = nfp
    a["mpol"], a["ntor"], a["mpol_nyq"], a["ntor_nyq"] = limits(cfg)
    a["mnmax"], a["mnmax_nyq"] = len(modes), len(nyq)
    a["xm"], a["xn"] = modes[:, 0].astype(np.int32), (modes[:, 1] * nfp).astype(np.int32)
    a["xm_nyq"], a["xn_nyq"] = nyq[:, 0].astype(np.int32), (nyq[:, 1] * nfp).astype(np.int32)
    a["ns_in"] = ns
    a["s_in"] = (np.arange(ns) + 0.5) / ns
    if cfg.get("free_s"):
        a["s_in"] = np.sort(0.5 + 0.5 * bulk(cfg["seed"], "s", (ns,)))
    seed = cfg["seed"]

    def series(tag, tab, strength, decay=cfg["decay"]):
        k = len(tab)
        wt = decay ** (tab[:, 0] + np.abs(tab[:, 1])).astype(float)
        zero = (tab[:, 0] == 0) & (tab[:, 1] == 0)
        wt = np.where(zero, 0.0, wt)
        tot = max(wt.sum(), 1e-300)
        return strength * bulk(seed, tag, (k, ns)) * (wt / tot)[:, None]

    i00 = [j for j in range(len(modes)) if modes[j, 0] == 0 and modes[j, 1] == 0][0]
    q00 = [j for j in range(len(nyq)) if nyq[j, 0] == 0 and nyq[j, 1] == 0][0]
    R0, B0 = cfg["R0"], cfg["B0"]

    a["rmnc"] = R0 * series("rc", modes, cfg["r"])
    a["rmnc"][i00] = R0 * (1 + 0.1 * bulk(seed, "r00", (ns,)))
    a["zmns"] = R0 * series("zs", modes, cfg["r"])
    # lambda is normalised so that its derivatives stay moderate
    big = max(1, modes[:, 0].max(), nfp * np.abs(modes[:, 1]).max() * 0.3)
    a["lmns"] = series("ls", modes, cfg["lam"]) / big
    a["bmnc"] = B0 * series("bc", nyq, cfg["b"])
    a["bmnc"][q00] = B0 * (1 + 0.1 * bulk(seed, "b00", (ns,)))
    G = cfg["G"] * (1 + 0.2 * bulk(seed, "G", (ns,)))
    I = cfg["I"] * (1 + 0.5 * bulk(seed, "I", (ns,))) if cfg["I"] else np.zeros(ns)
    iota = cfg["iota"] * (1 + 0.1 * bulk(seed, "iota", (ns,)))
    # keep G + iota I away from zero by construction: |iota*I| <= 2.6*0.3*|.| < 0.78*|G| is
    # not automatic for the largest draws, so scale I down where necessary
    lim = 0.5 * np.abs(G)
    f = np.where(np.abs(iota * I) > lim, lim / np.maximum(np.abs(iota * I), 1e-300), 1.0)
    I = I * f
    if cfg.get("Idom"):
        iota = np.where(np.abs(iota) < 0.1, 0.5, iota)
        I = G / iota * (2.5 + 0.5 * bulk(seed, "Id", (ns,))) * np.sign(bulk(seed, "Is", (ns,)))
    if cfg.get("GIzero"):
        z = bulk(seed, "GI0", (ns,)) > 0
        if cfg.get("Idom"):
            G = np.where(z, 0.0, G)
        else:
            I = np.where(z, 0.0, I)
    if cfg.get("iz") and not cfg.get("Idom"):
        iota = np.where(bulk(seed, "iz", (ns,)) > 0, [0.0, 1e-13][cfg["iz"] - 1] * (1 + bulk(seed, "iv", (ns,))), iota)
    if cfg.get("rational") and not cfg.get("Idom"):
        iota = cfg["rational"][0] + cfg["rational"][1] * bulk(seed, "rat", (ns,))
        f = 0.5 * np.abs(G) / np.maximum(np.abs(iota * I), 1e-300)
        I = np.where(f < 1, I * f, I)
    a["iota"] = iota
    m, n = nyq[:, 0].astype(float), nyq[:, 1].astype(float) * nfp
    bigq = max(1, nyq[:, 0].max(), nfp * np.abs(nyq[:, 1]).max() * 0.3)
    ws = series("ws", nyq, cfg["w"]) / bigq * np.abs(cfg["G"])
    a["bsubumnc"] = m[:, None] * ws
    a["bsubvmnc"] = -n[:, None] * ws
    if not cfg["consistent"]:
        a["bsubvmnc"] = np.where((m != 0)[:, None], bulk(seed, "vi", (len(nyq), ns)), a["bsubvmnc"])
        a["bsubumnc"] = np.where((m == 0)[:, None], bulk(seed, "ui", (len(nyq), ns)), a["bsubumnc"])
    a["bsubumnc"][q00] = I
    a["bsubvmnc"][q00] = G
    if asym:
        a["rmns"] = R0 * series("rs", modes, cfg["r"])
        a["zmnc"] = R0 * series("zc", modes, cfg["r"])
        a["zmnc"][i00] = R0 * 0.2 * bulk(seed, "z00", (ns,))
        a["lmnc"] = series("lc", modes, cfg["lam"]) / big
        a["bmns"] = B0 * series("bs", nyq, cfg["b"])
        for k in ("bmnc", "bmns"):
            keep = a[k][q00].copy()
            a[k] = a[k] * 0.7
            a[k][q00] = keep if k == "bmnc" else 0.0
        wc = series("wc", nyq, cfg["w"]) / bigq * np.abs(cfg["G"])
        a["bsubumns"] = -m[:, None] * wc
        a["bsubvmns"] = n[:, None] * wc
        if not cfg["consistent"]:
            a["bsubvmns"] = np.where((m != 0)[:, None], bulk(seed, "vs", (len(nyq), ns)), a["bsubvmns"])
            a["bsubumns"] = np.where((m == 0)[:, None], bulk(seed, "us", (len(nyq), ns)), a["bsubumns"])
        for k in ("bsubumns", "bsubvmns"):
            a[k][q00] = 0.0
        if cfg.get("lam00"):
            a["lmnc"][i00] = cfg["lam00"] * bulk(seed, "l00", (ns,))
    if cfg["b"] >= 0.85:
        # the deepest possible well on some grid: the amplitudes add up to this fraction of the mean
        ks = ["bmnc"] + (["bmns"] if asym else [])
        rest = np.arange(len(nyq)) != q00
        tot = sum(np.abs(a[k][rest]).sum(axis=0) for k in ks)
        f = cfg["b"] * a["bmnc"][q00] / np.where(tot > 0, tot, 1.0)
        for k in ks:
            a[k][rest] = a[k][rest] * f
    for group in KILL[:5 if not asym else None] if cfg.get("kill") else ():
        tab, zero = (modes, i00) if group[0] in ("rmnc", "rmns", "zmns", "zmnc", "lmns", "lmnc") else (nyq, q00)
        u = bulk(seed, "kill" + group[0], (len(tab),)) if cfg["kill"] == 2 else bulk(seed, "kill" + group[0], ()) + np.zeros(len(tab))
        dead = (u > 0.0) & (np.arange(len(tab)) != zero)
        for k in group:
            a[k][dead] = 0.0
    if cfg.get("Rsmall"):
        a["rmnc"][i00] = R0 * 0.1 * bulk(seed, "Rsmall", (ns,))
    if cfg.get("junk00"):
        for k, i, scale in (("zmns", i00, R0), ("lmns", i00, 0.3), ("rmns", i00, R0), ("bmns", q00, B0),
                            ("bsubumns", q00, abs(cfg["G"])), ("bsubvmns", q00, abs(cfg["G"]))):
            if k in a:
                a[k][i] = scale * bulk(seed, "junk" + k, (ns,))
    return a


KILL = [["rmnc"], ["zmns"], ["lmns"], ["bmnc"], ["bsubumnc", "bsubvmnc"],
        ["rmns"], ["zmnc"], ["lmnc"], ["bmns"], ["bsubumns", "bsubvmns"]]


@st.composite
def resolution(draw, max_mboz=9, max_nboz=6, big=True):
    """Mostly small; a few per cent of the cases are large in one direction (as large as anybody uses)."""
    w = draw(st.integers(0, 39)) if big else 0
    if w == 23:
        return {"mboz": draw(st.one_of(st.integers(24, 90), st.integers(70, 140))), "nboz": draw(st.integers(0, 2))}
    if w == 29:
        return {"mboz": draw(st.integers(1, 4)), "nboz": draw(st.integers(13, 110))}
    if w == 31 and draw(st.integers(0, 7)) == 5:
        return {"mboz": draw(st.integers(25, 64)), "nboz": draw(st.integers(20, 50))}
    return draw(_resolution(max_mboz, max_nboz, big))


def _resolution(max_mboz, max_nboz, big):
    mb = st.one_of(st.integers(1, max_mboz), st.integers(2, max_mboz), st.integers(2, max_mboz),
                   *([st.integers(max_mboz, 3 * max_mboz)] if big else []))
    nb = st.one_of(st.integers(0, max_nboz), st.integers(1, max_nboz), st.integers(1, max_nboz),
                   *([st.integers(max_nboz, 2 * max_nboz)] if big else []))
    return st.fixed_dictionaries({"mboz": mb, "nboz": nb})


@st.composite
def surfaces(draw, ns, allow_dup=True):
    """A non-empty list of surface indices."""
    if ns > 130:
        return draw(st.lists(st.one_of(st.integers(0, ns - 1), st.integers(ns - 3, ns - 1)), min_size=1, max_size=5, unique=not allow_dup))
    kind = draw(st.sampled_from(["all", "all", "list", "list", "one", "one", "permutation"]))
    if kind == "all":
        return list(range(ns))
    if kind == "permutation":
        return draw(st.permutations(range(ns)))
    if kind == "one":
        return [draw(st.integers(0, ns - 1))]
    return draw(st.lists(st.integers(0, ns - 1), min_size=1, max_size=ns + 2, unique=not allow_dup))


@st.composite
def run_case(draw, **kw):
    cfg = draw(config(tall=True, **kw))
    res = draw(resolution())
    surfs = draw(surfaces(cfg["ns"]))
    if res["mboz"] * (2 * res["nboz"] + 1) > 120 and len(surfs) > 6:
        surfs = surfs[:3] + surfs[-3:]          # keeps the cost of one case within seconds
    return {"cfg": cfg, "mboz": res["mboz"], "nboz": res["nboz"], "surfs": surfs}


def cfg_tags(cfg):
    t = ["asym" if cfg["asym"] else "sym"]
    t.append("nfp1" if cfg["nfp"] == 1 else "nfp>1")
    if all(n == 0 for _, n in cfg["modes"]) and all(n == 0 for _, n in cfg["modes_nyq"]):
        t.append("axisym")
    else:
        t.append("3D")
    if cfg["ns"] == 1:
        t.append("ns1")
    if cfg.get("real"):
        t.append("repository equilibrium")
    elif not cfg["consistent"]:
        t.append("inconsistent-bsub")
    for k, name in (("kill", "zero parts"), ("Idom", "I dominates"), ("GIzero", "G or I zero somewhere"), ("lam00", "constant lambda"),
                    ("iz", "iota zero somewhere"), ("junk00", "sin(0) amplitudes"), ("Rsmall", "R of both signs")):
        if cfg.get(k) and (k != "lam00" or cfg["asym"]):
            t.append(name)
    if cfg["b"] >= 0.85:
        t.append("deep well")
    return t


def interesting_fields(cfg):
    """Rule used for 'non-trivial': at least two modes in each table and a real angle change."""
    def dead(group):
        return cfg.get("kill") == 1 and bulk(cfg["seed"], "kill" + group, ()) > 0
    return len(cfg["modes"]) > 1 and len(cfg["modes_nyq"]) > 1 and cfg["b"] > 0 and not dead("bmnc") \
        and (cfg["lam"] > 0 and not dead("lmns") or cfg["w"] > 0 and not dead("bsubumnc"))


@st.composite
def resolved_case(draw, asym=None, consistent=None, strengths=(0.05, 0.15, 0.3), lam=(0.0, 0.05, 0.15, 0.3), max_nfp=8):
    """Smooth configurations and a resolution that (nearly always) resolves their Boozer spectrum."""
    cfg = draw(config(asym=asym, max_ns=2, max_m=2, max_n=2, allow_negative_m0=True, max_nfp=max_nfp, wide=False))
    cfg["modes"] = [m for m in cfg["modes"] if m[0] <= 3 and abs(m[1]) <= 2]
    cfg["modes_nyq"] = [m for m in cfg["modes_nyq"] if m[0] <= 3 and abs(m[1]) <= 2]
    if draw(st.integers(0, 4)) == 3:      # modes with m = 0 and larger n of both signs
        for n in draw(st.lists(st.integers(-6, 6).filter(lambda n: n != 0), min_size=1, max_size=3, unique=True)):
            if [0, n] not in cfg["modes_nyq"]:
                cfg["modes_nyq"].append([0, n])
    for k, s in (("r", strengths), ("lam", lam), ("w", lam), ("b", strengths)):
        cfg[k] = draw(st.sampled_from(list(s))) if cfg[k] < 0.85 else cfg[k]
    if abs(cfg["iota"]) > 6:              # keep iota nu, the change of the angle, moderate
        cfg["w"] *= 2 / abs(cfg["iota"])
    cfg["decay"] = draw(st.sampled_from([0.5, 0.3]))
    if consistent is not None:
        cfg["consistent"] = consistent
    axisym = all(n == 0 for _, n in cfg["modes"] + cfg["modes_nyq"])
    mboz = draw(st.sampled_from([24, 18, 30] if axisym else [16, 20, 14]))
    nboz = draw(st.sampled_from([0, 0, 1])) if axisym else draw(st.sampled_from([10, 12, 8]))
    w = draw(st.integers(0, 63))        # now and then a resolution that is much higher than necessary
    if w == 17:
        mboz = draw(st.integers(40, 90))
    elif w == 23 and not axisym:
        nboz = draw(st.integers(20, 90))
    elif w == 41 and not axisym:
        mboz, nboz = draw(st.integers(35, 60)), draw(st.integers(25, 50))
    return {"cfg": cfg, "mboz": mboz, "nboz": nboz, "surfs": draw(surfaces(cfg["ns"])),
            "points": draw(st.integers(0, 2**32 - 1))}
