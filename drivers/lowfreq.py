"""The low-frequency generator (C09, C10, C11)."""
import warnings as W
from vlib import cover
from .api import *
from .fieldvals import PICK, uniq


def conf(h):
    num = (lambda x: int(float(x)) if float(x) == int(float(x)) else float(x)) if h.get("num") == "int" else float      # 15000 and 15000.0 mean the same
    return dict(sigma2=num(h["sigma2"]), L_2d=num(h["L2d"]), psi=num(h["psi"]), z_i=num(h["zi"]), L1_factor=num(h["f1"]), L2_factor=num(h["f2"]), exp1=h["e1"], exp2=h["e2"])


def requests(c, num, size=None):
    hs = uniq(c.scenarios("LowFreqSim", PICK, num=3 * num, depth=12))
    hs = cover.order(hs, np.random.RandomState(c.seed), c=c)
    return [h for h in hs if size is None or (h["n1"] * h["n2"] <= size)]


def build(cfg):
    """(outcome, generator, warned)"""
    try:
        with quiet(), W.catch_warnings(record=True) as w:
            W.simplefilter("always")
            g = LowFreqGenerator(cfg)
        return "ok", g, any(issubclass(x.category, UserWarning) for x in w)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__, None, False


def C09(c):
    ev = []
    hs = requests(c, c.n(600, 5000), 25000000)
    big = [h for h in hs if h["n1"] * h["n2"] > 200000]       # fine grids take seconds each
    rest = [h for h in hs if h["n1"] * h["n2"] <= 200000]
    hs = rest[:60] + big[:c.n(12, 60)] + rest[60:]
    for h in c.timely(hs):
        cfg = conf(h)
        keep = dict(cfg)
        out, g, warned = build(cfg)
        e = dict(a="grid", c=h, out=out)
        if out == "ok":
            e.update(n1=int(g.comp_N1), n2=int(g.comp_N2), l1=r(g.comp_L1), l2=r(g.comp_L2), d1=r(g.comp_dx), d2=r(g.comp_dy), x=rs(g.user_x_coords), y=rs(g.user_y_coords), warned=warned,
                     cfgsame=cfg == keep)
        ev.append(e)
    c.trace("LowFreqTrace", ev, ntraces=len(ev), what="grids")
    c.cov["rule"] = "random requests over extents below, at and above five length scales, aspect ratios and resolutions"


def offset(sub, full):
    n, m = sub.shape
    if not sub.any():
        return []
    return [[a, b] for a in range(full.shape[0] - n + 1) for b in range(full.shape[1] - m + 1) if np.array_equal(full[a:a + n, b:b + m], sub)]


def C10(c):
    rng = np.random.RandomState(c.seed)
    hs = requests(c, c.n(40, 400), 20000)[:c.n(40, 300)]
    ev = []
    for q, h in enumerate(c.timely(hs)):
        ev.append(dict(a="reset"))
        cfg = conf(h)
        out, g, _ = build(cfg)
        ev.append(dict(a="new", g=1, c=h, out=out))
        if out != "ok":
            continue
        seed = int(rng.randint(1 << 31))
        stream = np.random.RandomState(seed)
        np.random.seed(seed)
        n1, n2 = int(g.comp_N1), int(g.comp_N2)
        last = None
        for rep in range(2 + q % 2):
            out, v = call(g.generate)
            e = dict(a="field", c=h, out=out)
            if out == "ok":
                u1, u2, f1, f2 = (np.asarray(x) for x in (g.u1, g.u2, g.u1_full, g.u2_full))
                o1, o2 = offset(u1, f1), offset(u2, f2)
                e.update(finite=bool(np.isfinite(f1).all() and np.isfinite(f2).all() and not np.iscomplexobj(f1) and not np.iscomplexobj(f2)), shape=list(u1.shape), n1=n1, n2=n2,
                         mean1=r(f1.mean()), mean2=r(f2.mean()), std=r(max(f1.std(), f2.std())), off1=o1, off2=o2, zero1=not u1.any(), zero2=not u2.any(),
                         returned=bool(len(v) == 2 and np.array_equal(v[0], u1) and np.array_equal(v[1], u2)), fresh=last is None or not any(np.array_equal(a, b) and a.any() for a, b in zip(last, (f1, f2))))
                last = (f1.copy(), f2.copy())
                noise = np.fft.fft2(stream.normal(size=(n1, n2)))
                U1, U2 = np.fft.fft2(f1), np.fft.fft2(f2)
                d = float(h["f1"]) * float(h["L2d"]) / 2 ** h["e1"]
                d = min(d, float(h["f2"]) * float(h["L2d"]) / 2 ** h["e2"])
                k1, k2 = 2 * np.pi * np.fft.fftfreq(n1, d), 2 * np.pi * np.fft.fftfreq(n2, d)
                idx = [(i, j) for i in range(n1) for j in range(n2) if 2 * i != n1 and 2 * j != n2 and (i or j)]
                ax = [p for p in idx if p[0] == 0 or p[1] == 0]
                for i, j in [idx[t] for t in rng.choice(len(idx), min(len(idx), 12), replace=False)] + [ax[t] for t in rng.choice(len(ax), min(len(ax), 6), replace=False)] if idx else []:
                    ev.append(dict(a="mode", g=1, k1=r(k1[i]), k2=r(k2[j]), d=r(d), n=rs([noise[i, j].real, noise[i, j].imag]), u1=rs([U1[i, j].real, U1[i, j].imag]), u2=rs([U2[i, j].real, U2[i, j].imag]),
                                   sc=r(max(np.abs(U1).max(), np.abs(U2).max()))))
            ev.append(e)
    c.trace("LowFreqTrace", ev, ntraces=len(hs), what="fields and their modes")


def C11(c):
    rng = np.random.RandomState(c.seed)
    cfg = "SPECIFICATION Spec\nCONSTANTS Gens = {1,2} Depth = %d\n"
    c.model("LowFreqLife", cfg % c.n(5, 7) + "INVARIANT Current\nPROPERTY Grows\n")
    hist = c.scenarios("LowFreqLife", cfg % c.n(14, 16) + "INVARIANT Emit\n", num=c.n(1500, 6000), depth=20)
    # histories that together show every pattern of four calls on one generator and of three on two
    hist = cover.choose(c, hist, cover.subseqs(lambda o: None if o["op"] == "ana" else (o["op"], o["g"]), 4, lambda p: len(p) < 4 or len({g for _, g in p}) == 1), c.n(24, 200))
    hs = [h for h in requests(c, c.n(200, 1000), 6000) if h["e1"] > 1 and h["e2"] > 1]
    small = [h for h in hs if h["n1"] * h["n2"] <= 256]
    ev = []
    for q, hh in enumerate(c.timely(hist)):
        ev.append(dict(a="reset"))
        gens, ok = {}, True
        for g in (1, 2):
            h = hs[(2 * q + g) % len(hs)] if q % 6 == 0 else small[(2 * q + g) % len(small)]
            out, obj, _ = build(conf(h))
            ev.append(dict(a="new", g=g, c=h, out=out))
            gens[g] = (obj, h)
            ok = ok and out == "ok"
        if not ok:
            continue
        np.random.seed(int(rng.randint(1 << 31)))
        own = np.zeros(4), np.zeros(3)
        for o in hh:
            g, h = gens[o["g"]]
            L1, L2 = float(h["f1"]) * float(h["L2d"]), float(h["f2"]) * float(h["L2d"])
            n, m = 2 ** h["e1"], 2 ** h["e2"]
            if o["op"] == "gen":
                out, v = call(g.generate)
                ev.append(dict(a="gen", g=o["g"], out=out, u1=rows(v[0]) if out == "ok" else [], u2=rows(v[1]) if out == "ok" else []))
            elif o["op"] == "interp":
                x = rng.uniform(-.3, 1.2, size=rng.randint(1, 6)) * L1
                y = rng.uniform(-.3, 1.2, size=rng.randint(1, 5)) * L2
                if rng.rand() < .4:
                    x = np.sort(x)
                elif rng.rand() < .7:      # arrays of the caller's own, filled anew every time
                    own[0][:] = rng.uniform(-.3, 1.2, 4) * L1
                    own[1][:] = rng.uniform(-.3, 1.2, 3) * L2
                    x, y = own
                x0, y0 = x.copy(), y.copy()
                out, v = call(g.interp_slice, x, y)
                if not (np.array_equal(x, x0) and np.array_equal(y, y0)):
                    out = "InputModified"
                sc = max([1e-300] + [float(np.abs(t).max()) for t in (g.u1, g.u2) if t is not None])
                ev.append(dict(a="interp", g=o["g"], out=out, x=rs(x0), y=rs(y0), nodes=False, sc=r(sc), v1=rows(v[0]) if out == "ok" else [], v2=rows(v[1]) if out == "ok" else []))
                i, j = np.sort(rng.choice(n, min(n, 4), replace=False)), np.sort(rng.choice(m, min(m, 3), replace=False))
                out, v = call(g.interp_slice, np.linspace(0, L1, n, endpoint=False)[i], np.linspace(0, L2, m, endpoint=False)[j])
                ev.append(dict(a="nodes", g=o["g"], out=out, i=[int(t) + 1 for t in i], j=[int(t) + 1 for t in j], sc=r(sc), v1=rows(v[0]) if out == "ok" else [], v2=rows(v[1]) if out == "ok" else []))
            elif o["op"] == "spec":
                # the tolerance for matching wavenumbers is absolute
                out, v = call(g.compute_spectrum) if rng.rand() < .5 else call(g.compute_spectrum, 1e-9)
                ev.append(dict(a="spec", g=o["g"], out=out, **(dict(k=rs(v[0]), f1=rs(v[1]), f2=rs(v[2])) if out == "ok" else dict(k=[], f1=[], f2=[]))))
            else:
                L = float(h["L2d"])
                lim = float(rng.choice([20., 100., 300.])) / L
                k = np.array([0., .2, -.2, 1.3, 7.]) / L
                rng.shuffle(k)
                if rng.rand() < .3:
                    lim = -lim if rng.rand() < .5 else lim
                k0 = k.copy()
                out, v = call(g.analytical_spectrum, k, lim)
                out2, w = call(g.analytical_spectrum, -k0, lim)
                if not np.array_equal(k, k0):
                    out = "InputModified"
                ev.append(dict(a="ana", g=o["g"], out=out, k=rs(k0), lim=r(abs(lim)), f1=rs(v[0]) if out == "ok" else [], f2=rs(v[1]) if out == "ok" else [],
                               even=bool(out == "ok" and out2 == "ok" and np.allclose(v[0], w[0], rtol=1e-6, atol=1e-12) and np.allclose(v[1], w[1], rtol=1e-6, atol=1e-12))))
                if rng.rand() < .3:      # integer wavenumbers
                    k, lim = np.array([0, 1, -2]), 10. if L < 100 else .3
                    if lim * L <= 400:
                        out, v = call(g.analytical_spectrum, k, lim)
                        ev.append(dict(a="ana", g=o["g"], out=out, k=rs(k), lim=r(lim), f1=rs(v[0]) if out == "ok" else [], f2=rs(v[1]) if out == "ok" else [], even=True))
    c.trace("LowFreqTrace", ev, ntraces=len(hist), what="histories of queries")
    c.cov["rule"] = "random histories of generation and queries on two generators with different requests"
