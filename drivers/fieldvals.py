"""Values of wind fields (C03, C04, C12): reference windows, profiles, superposition."""
import warnings
from .api import *
from . import fieldgen as fg
from vlib import cover
from drdmannturb.fluctuation_generation.covariance_kernels import MannCovariance, VonKarmanCovariance

PICK = """SPECIFICATION PSpec
CONSTANTS
 Fields <- MyFields
 Derive <- MyDerive
INVARIANT Emit
"""
F = lambda xs: tuple(float(x) for x in xs)


def uniq(hs):
    import json
    return list({json.dumps(h, sort_keys=True): h for h in hs}.values())


def picks(c, module, num, keep=lambda h: True):
    """Scenarios of a specification of inputs, those that show every pair of choices first."""
    hs = uniq(c.scenarios(module, PICK, num=4 * num, depth=20))
    return cover.order([h for h in hs if keep(h)], np.random.RandomState(c.seed), c=c)


def make(c, scratch, lf=None, seed=None, **kw):
    d = dict(model=c["model"], lv=tuple(c["lv"]), dims=F(c["dims"]), blend=c["blend"], lf=lf, ustar=float(c.get("ustar", .6)), zref=float(c.get("zref", 20.)),
             L=float(c["L"]), G=float(c["G"]), E=float(c.get("E", 1.1)))
    args = (d["ustar"], d["zref"], np.array(d["dims"]), np.array(d["lv"]), d["model"])
    kw = dict(seed=c["seed"] if seed is None else seed, blend_num=d["blend"], config_2d_model=dict(lf) if lf else None)
    if d["model"] == "DRD":
        return FFG(*args, path_to_parameters=fg.drd_file(scratch, L=d["L"] / d["zref"], G=d["G"], S=d["E"]), **kw)
    return FFG(*args, d["L"], d["G"], d["E"], **kw)


TINY = dict(zref=20., uref=1e-13, z0=.1, windprofiletype="LOG")


def kernel(c, g):
    if c["model"] == "VK":
        return VonKarmanCovariance(ndim=3, length_scale=float(c["L"]), E0=1.)
    if c["model"] == "Mann":
        return MannCovariance(ndim=3, length_scale=float(c["L"]), E0=1., Gamma=float(c["G"]))
    return g.Covariance


def reference(c, cov, nblocks):
    """Central parts of the kernel applied to the windows of the stream, as the specification lays them out."""
    geo, h = c["geo"], np.array(F(c["dims"])) / np.array(c["geo"]["n"])
    n, w, f = geo["n"], geo["w"], geo["from"]
    tape = np.random.RandomState(c["seed"]).normal(size=[w[0] + (nblocks - 1) * n[0], w[1], w[2], 3])
    k = [2 * np.pi / (h[j] * w[j]) * (w[j] * np.fft.fftfreq(w[j])) for j in range(3)]
    with quiet():
        G = np.asarray(cov.precompute_Spectrum(k))[..., : w[2] // 2 + 1]
    out = []
    for b in range(nblocks):
        z = tape[b * n[0]:b * n[0] + w[0]]
        zh = np.stack([np.fft.rfftn(z[..., i]) for i in range(3)], axis=-1)
        uh = np.einsum("ijxyz,xyzj->xyzi", G, zh)
        u = np.stack([np.fft.irfftn(uh[..., i], s=w) for i in range(3)], axis=-1)
        out.append(u[f[0]:f[0] + n[0], f[1]:f[1] + n[1], f[2]:f[2] + n[2]])
    return out


def C03(c):
    c.model("WindowMC", "SPECIFICATION Spec\nCONSTANTS MaxNx=%d MaxBuf=%d MaxBlend=%d MaxB=%d\nINVARIANTS WindowOfBlock KeptSize NoSeam\n" % c.n((6, 4, 4, 5), (9, 7, 7, 8)))
    windows(c, picks(c, "WindowSim", c.n(70, 600), lambda h: h["robust"] and np.prod(h["geo"]["w"]) < 60000)[:c.n(140, 1200)])


def windows(c, hs):
    ev, worst = [], 0.
    for h in c.timely(hs):
        def run():
            g = make(h, c.scratch)
            n = h["blocks"]
            if n > 1:
                g.generate(1, **TINY)
            return g, np.asarray(g.generate(n - 1 if n > 1 else 1, **TINY))
        out, val = call(run)
        if out != "ok":
            ev.append(dict(a="win", c=h, out=out, b=0))
            continue
        g, u = val
        ref = reference(h, kernel(h, g), h["blocks"])
        n = h["geo"]["n"][0]
        for b in range(h["blocks"]):
            got = u[b * n:(b + 1) * n]
            ev.append(dict(a="win", c=h, out="ok", b=b, got=rs(got), ref=rs(ref[b]), tol="0.0001"))
            if got.shape == ref[b].shape:
                q = ref[b] / np.sqrt((ref[b] ** 2).mean())
                worst = max(worst, float(np.abs(got / np.sqrt((got ** 2).mean()) - q).max()))
    c.cov["worst_deviation"] = worst
    c.trace("FieldTrace", ev, ntraces=len(hs), what="blocks against correlated windows of the stream")


PROFS = [dict(zref=20., uref=8., z0=.05, windprofiletype="LOG"), dict(zref=10., uref=5.5, z0=.3, windprofiletype="PL", plexp=.21),
         dict(zref=119., uref=25., z0=1e-4, windprofiletype="LOG", plexp=.3), dict(zref=3., uref=.2, z0=7., windprofiletype="PL", plexp=1.),
         dict(zref=.5, uref=11., z0=2., windprofiletype="LOG"), dict(zref=90., uref=10., z0=.01, windprofiletype="PL", plexp=0.5),
         dict(zref=50, uref=7, z0=1, windprofiletype="LOG"), dict(zref=50, uref=7, z0=1, windprofiletype="PL", plexp=2),
         dict(zref=35., uref=4., z0=.2, windprofiletype="PL", plexp=0.)]


def P(p):
    return dict(type=p["windprofiletype"], zref=r(p["zref"]), uref=r(p["uref"]), z0=r(p["z0"]), exp=r(p.get("plexp") if p.get("plexp") is not None else 0.))


def walk(q, h):
    """Profiles of the blocks: each differs from the one before in exactly what the specification chose."""
    ps = [dict(PROFS[q % len(PROFS)])]
    for b in range(1, h["blocks"]):
        p, k, other = dict(ps[-1]), h["walk"][b - 1], PROFS[(q + 3 * b) % len(PROFS)]
        if k == "all":
            p = dict(other)
        elif k == "type":
            p["windprofiletype"] = "PL" if p["windprofiletype"] == "LOG" else "LOG"
        elif k == "exp":
            p["plexp"] = p.get("plexp", 0.) + .17
        elif k != "same":
            p[k] = p[k] * (1.75 if k == "z0" else 1.21)
        if p["windprofiletype"] == "PL" and p.get("plexp") is None:
            p["plexp"] = .3
        ps.append(p)
    return ps


def C04(c):
    hs = picks(c, "WindowSim", c.n(60, 600), lambda h: np.prod(h["geo"]["w"]) < 60000)[:c.n(170, 1700)]
    ev = []
    for q, h in enumerate(c.timely(hs)):
        lf = fg.LF1 if q % 5 == 4 and h["model"] != "DRD" else None
        n = h["geo"]["n"][0]
        ps = walk(q, h)

        def run():
            a, z = make(h, c.scratch, lf), make(h, c.scratch)
            b = make(h, c.scratch, lf) if lf else z
            u0 = np.asarray(b.generate(len(ps), **TINY)).copy()
            plain = np.asarray(z.generate(len(ps), **TINY)).copy() if lf else u0
            if len(set(map(str, ps))) == 1:
                a.generate(len(ps), **ps[0])
            else:
                for p in ps:
                    a.generate(1, **p)
            return np.asarray(a.total_fluctuation), u0, plain
        out, val = call(run)
        if out != "ok":
            ev.append(dict(a="prof", c=h, out=out))
            continue
        u, u0, plain = val
        for b, p in enumerate(ps):
            s = slice(b * n, (b + 1) * n)
            d = u[s] - u0[s]
            ev.append(dict(a="prof", c={k: h[k] for k in ("dims", "lv", "model")}, p=P(p), out="ok", mean=rs(d[..., 0].mean(axis=(0, 1))), spread=rs(np.ptp(d[..., 0], axis=(0, 1))),
                           other=r(np.abs(d[..., 1:]).max()), rms=r(np.sqrt((plain[s] ** 2).mean())), finite=bool(np.isfinite(u).all())))
    g = make(hs[0], c.scratch)
    for p in PROFS:
        z = np.concatenate([[0., p["z0"], p["zref"]], np.linspace(.01, 300, 9)])
        fn = (lambda zz: g.log_law(zz, p["z0"], p["zref"], p["uref"])) if p["windprofiletype"] == "LOG" else (lambda zz: g.power_law(zz, p["zref"], p["uref"], p["plexp"]))
        out, val = call(fn, z)
        ev.append(dict(a="law", p=P(p), out=out, z=rs(z), u=rs(val) if out == "ok" else []))
        out, val = call(lambda: [float(fn(float(x))) for x in z])
        ev.append(dict(a="law", p=P(p), out=out, z=rs(z), u=rs(val) if out == "ok" else []))
    c.trace("FieldTrace", ev, ntraces=len(hs), what="mean profiles and unit variance")


def C12(c):
    c.model("FieldGenMC", fg.MC_CFG.format(maxn=2, maxb=2))
    hs = picks(c, "LFSim", c.n(40, 400))[:c.n(180, 1800)]
    ev = []
    for q, h in enumerate(c.timely(hs)):
        lf = dict(sigma2=1.7, L_2d=float(h["L2d"]), psi=float(h["psi"]), z_i=40., L1_factor=float(h["f1"]), L2_factor=float(h["f2"]), exp1=h["e1"], exp2=h["e2"])
        n = 2 ** h["lv"][0] + 1
        warned = []

        def run():
            a, b = make(h, c.scratch, lf), make(h, c.scratch)
            t1, t2 = np.array(a.low_freq_gen.u1), np.array(a.low_freq_gen.u2)
            p = dict(PROFS[q % len(PROFS)])
            b.generate(sum(h["calls"]), **p)
            for m in h["calls"]:
                with warnings.catch_warnings(record=True) as seen:
                    warnings.simplefilter("always")
                    a.generate(m, **p)
                warned.append([m, sum("2D" in str(x.message) for x in seen)])
            return np.asarray(a.total_fluctuation) - np.asarray(b.total_fluctuation), t1, t2
        out, val = call(run)
        if out != "ok":
            ev.append(dict(a="lf", c=h, out=out, b=0))
            continue
        d, t1, t2 = val
        ev.append(dict(a="wide", c={k: h[k] for k in ("dims", "lv", "calls", "seed")}, L2=r(lf["L2_factor"] * lf["L_2d"]), warned=warned))
        L = dict(L1=r(lf["L1_factor"] * lf["L_2d"]), L2=r(lf["L2_factor"] * lf["L_2d"]), u1=rows(t1), u2=rows(t2), max=r(max(np.abs(t1).max(), np.abs(t2).max())))
        for b in range(sum(h["calls"])):
            s = d[b * n:(b + 1) * n]
            ev.append(dict(a="lf", c={k: h[k] for k in ("dims", "lv", "calls", "seed")}, out="ok", b=b, lf=L, du=rows(s[:, :, 0, 0]), dv=rows(s[:, :, 0, 1]), dw=r(np.abs(s[..., 2]).max()),
                           zspread=r(np.ptp(s[..., :2], axis=2).max())))
    c.trace("FieldTrace", ev, ntraces=len(hs), what="low-frequency superposition")
