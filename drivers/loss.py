"""The calibration loss (C16, C17)."""
from .api import *
from .fieldvals import PICK, uniq
from vlib import cover
from drdmannturb.spectra_fitting.loss_functions import LossAggregator

TERMS = ("mse", "coherence", "pen1", "pen2", "regularization")


def k1s(kind, n, rng):
    if kind == "log":
        return np.logspace(-1, 2, n)
    if kind == "wide":
        return np.logspace(-6, 5, n)
    return np.cumsum(.05 + rng.rand(n))


def spectra(shape, rows, k, rng, d):
    n = len(k)
    lk = np.log(k)
    if shape == "fit":
        return d.copy()
    if shape == "const":
        return np.ones((rows, n)) * 2.
    if shape == "falling":
        return np.exp(-lk[None, :] * (.3 + rng.rand(rows, 1)))
    if shape == "convex":
        return np.exp(.1 * (lk - lk.mean())[None, :] ** 2 * (1 + rng.rand(rows, 1)))
    if shape == "concave":
        return np.exp(-.1 * (lk - lk.mean())[None, :] ** 2 * (1 + rng.rand(rows, 1)))
    y = np.exp(rng.randn(rows, n))
    return y if shape == "random" else y * np.sign(rng.randn(rows, n))


def C16(c):
    c.model("LossMC", 'SPECIFICATION Spec\nCONSTANTS Vals = {%s} Depth = 0 Seen = {"1"}\nINVARIANTS NonNegative PerfectFit Zeros ScaleFree\n' % c.n('"0.2","1","3.5"', '"0.01","0.2","1","3.5","60.0"'))
    hs = uniq(c.scenarios("LossSim", PICK, num=3 * c.n(130, 1500), depth=20))
    rng = np.random.RandomState(c.seed)
    hs = cover.order(hs, rng, c=c)
    ev = []
    for q, h in enumerate(c.timely(hs[:c.n(700, 9000)])):
        dt = torch.float64 if h["dtype"] == "f64" else torch.float32
        rows_, n = h["rows"], h["n"]
        k = k1s(h["k"], n, rng)
        if h["spoil"] == "dup":
            k[1] = k[0]
        d = np.exp(rng.randn(rows_, n)) * np.where(rng.rand(rows_, n) < .3, -1, 1)
        y = spectra(h["shape"], rows_, k, rng, d)
        th = dict(none=[], one=rng.randn(1), many=rng.randn(11), zero=np.zeros(4), big=100 * rng.randn(3))[h["theta"]]
        th = np.asarray(th, dtype=float)
        ns, nf = rng.randint(1, 4), rng.randint(1, 5)
        coh = [] if h["coh"] == "none" else [rng.rand(ns, nf) for _ in range(6)]
        if h["coh"] == "equal":
            coh[3:] = [x.copy() for x in coh[:3]]
        if h["spoil"] == "ynan":
            y[-1, -1] = np.nan
        elif h["spoil"] == "dnan":
            d[0, 0] = np.nan
        elif h["spoil"] == "thnan" and len(th):
            th[-1] = np.nan
        elif h["spoil"] == "cohnan" and coh:
            coh[rng.randint(6)][0, -1] = np.nan
        t = lambda a: torch.tensor(a, dtype=dt)
        T = dict(y=t(y).requires_grad_(True), d=t(d), th=t(th).requires_grad_(True) if len(th) else None, coh=[t(x) for x in coh])
        for x in T["coh"][:3]:
            x.requires_grad_(True)
        w = {x: float(h[x]) for x in ("a1", "a2", "b", "g")}
        names = ("model_u", "model_v", "model_w", "data_u", "data_v", "data_w")
        cd = None if not coh else {m: (x.detach().numpy().astype(float) if h["coh"] == "numpy" and i >= 3 else x) for i, (m, x) in enumerate(zip(names, T["coh"]))}
        keep = [x.detach().clone() for x in [T["y"], T["d"]] + ([T["th"]] if len(th) else []) + T["coh"]]
        kt = t(k)
        ktc = kt.clone()
        def run():
            ag = LossAggregator(D.LossParameters(alpha_pen1=w["a1"], alpha_pen2=w["a2"], beta_reg=w["b"], gamma_coherence=w["g"]), kt, float(h["zref"]), tb_log_dir=c.scratch + "/tb")
            return ag, ag.eval(T["y"], T["d"], T["th"], q % 3, coherence_data=cd)
        out, val = call(run)
        now = [x.detach() for x in [T["y"], T["d"]] + ([T["th"]] if len(th) else []) + T["coh"]]
        f = lambda x: rows(x.detach().numpy().astype(float)) if x is not None else []
        e = dict(a="loss", h=h, out=out, y=f(T["y"]), d=f(T["d"]), th=f(T["th"]), coh=[f(x) for x in T["coh"]], k=f(kt), z=h["zref"], w={x: h[x] for x in w},
                 tol="1e-8" if dt == torch.float64 else "2e-3", atol="1e-12", hasgrad=False,
                 intact=all(torch.equal(a.nan_to_num(9.), b.nan_to_num(9.)) for a, b in zip(keep, now)) and torch.equal(kt, ktc))
        if dt == torch.float32:
            # logarithms and their differences lose up to about 1e-6 absolutely per step
            hm = float(np.abs(np.diff(np.log(f32(k)))).min()) if h["spoil"] != "dup" else 1.
            e["atol"] = r(1e-5 * (1 + w["a1"] / float(h["zref"]) / hm ** 2 + w["a2"] / float(h["zref"]) ** 2 / hm ** 4))
        if out == "ok":
            ag, tot = val
            e.update(extra="none")
            if hasattr(ag, "loss_func") and (len(th) or not w["b"]):
                o2, ex = call(ag.loss_func, T["y"], T["th"], q % 3, **(dict(coherence_data=cd) if cd else {}))
                e["extra"] = r(float(ex)) if o2 == "ok" else "nan"
            e.update(total=r(tot.item()), rec={n_: r(ag.component_losses[n_][-1]) for n_ in TERMS})
            if dt == torch.float64 and h["spoil"] in ("no", "no ") and tot.requires_grad and h["k"] != "wide":
                leaves = [T["y"]] + ([T["th"]] if len(th) else []) + T["coh"][:3]
                gs = torch.autograd.grad(tot, leaves, allow_unused=True)
                dy, dth, dc = rng.randn(*y.shape) * np.abs(y) * .3, rng.randn(len(th)), [rng.randn(*x.shape) * .3 for x in coh[:3]]
                dirs = [dy] + ([dth] if len(th) else []) + dc
                terms = [float((g.numpy() * x).sum()) if g is not None else 0. for g, x in zip(gs, dirs)]
                e.update(hasgrad=True, grad=r(sum(terms)), gscale=r(sum(abs(x) for x in terms)), dy=rows(dy), dth=rows(dth), dcoh=[rows(x) for x in dc])
            elif dt == torch.float64 and not tot.requires_grad:
                e.update(hasgrad=True, grad="0", gscale="0", dy=rows(y * .3), dth=rows(np.ones(len(th))), dcoh=[rows(np.ones_like(x)) for x in coh[:3]]) if h["spoil"] in ("no", "no ") else None
        ev.append(e)
    c.cov["with_gradient"] = sum(e["hasgrad"] for e in ev)
    c.cov["outcomes"] = {o: sum(e["out"] == o for e in ev) for o in {e["out"] for e in ev}}
    c.trace("LossTrace", ev, ntraces=len(ev), what="loss terms")


def f32(x):
    return np.asarray(x, dtype=np.float32).astype(float)


PROG = dict(fall=lambda t, n, g: 1. - .8 * t / max(1, n), flat=lambda t, n, g: 1., rise=lambda t, n, g: .3 + t / max(1, n), noise=lambda t, n, g: .2 + g.rand(), spike=lambda t, n, g: 5. if t == n - 2 else 1. - .02 * t,
            slow=lambda t, n, g: 1. - .003 * t, jump=lambda t, n, g: 1. if t < n // 2 else .05, zero=lambda t, n, g: 0., late=lambda t, n, g: 0. if t < max(1, n // 3) else 1. - .2 * t / n, gap=lambda t, n, g: 0. if t % 3 == 1 else .4 + .3 * g.rand())


def C17(c):
    c.model("LossMC", 'SPECIFICATION Spec\nCONSTANTS Vals = {"1"} Depth = %d Seen = {"0","0.5","3.0","40.0"}\nINVARIANTS AverageBetween AdviceTotal\n' % c.n(5, 7))
    hs = uniq(c.scenarios("LossHistSim", PICK, num=3 * c.n(120, 900), depth=20))
    rng = np.random.RandomState(c.seed)
    hs = cover.order(hs, rng, c=c)
    ev, reasons = [], {}
    k = torch.tensor(np.logspace(-1, 1, 6), dtype=torch.float64)
    lk = np.log(k.numpy())
    u = .5 + .3 * (lk - lk[0]) + .2 * (lk - lk[0]) ** 2          # rising and convex
    for h in c.timely(hs[:c.n(110, 900)]):
        on = h["terms"].strip()
        W = dict(a1=1., a2=1., b=1., g=1.) if on == "all" else dict(a1=float(on == "pens"), a2=float(on == "pens"), b=float(on == "reg"), g=float(on == "coh"))
        amp, n = float(h["amp"]), h["len"]
        ev.append(dict(a="reset"))
        with quiet():
            ag = LossAggregator(D.LossParameters(alpha_pen1=W["a1"], alpha_pen2=W["a2"], beta_reg=W["b"], gamma_coherence=W["g"]), k, 1., tb_log_dir=c.scratch + "/tb")
        steps = list(range(n))
        bad = {int(rng.randint(n)), n - 1} if h["spoil"] == "yes" else set()
        def probe(t):
            full = n < 100 or t in (99, 150, 900, n - 1)     # the whole history, in long runs only now and then
            return dict(full=full, hist={m: rs(ag.component_losses[m]) for m in TERMS + ("total",)} if full else {}, avg={m: r(ag.running_averages[m]) for m in TERMS})
        for t in steps:
            if t in bad:
                y = torch.full((3, 6), float("nan"), dtype=torch.float64)
                out, v = call(ag.eval, y, torch.ones_like(y), torch.ones(2, dtype=torch.float64), t)
                ev.append(dict(a="ev", spoiled=True, out=out, **probe(t)))
            s = amp * PROG[h["prog"]](t, n, rng)
            y = torch.tensor(np.exp(s * np.stack([u, 1.1 * u, .9 * u])))
            cm = torch.full((2, 3), .0, dtype=torch.float64)
            cd = dict(model_u=cm + s, model_v=cm + s, model_w=cm + s, data_u=cm, data_v=cm, data_w=cm)
            kw = dict(coherence_data=cd) if W["g"] else {}
            out, v = call(ag.eval, y, torch.ones_like(y), torch.full((4,), s, dtype=torch.float64), t, **kw)
            ev.append(dict(a="ev", spoiled=False, out=out, ret=r(v) if out == "ok" else "nan", val={m: r(ag.component_losses[m][-1]) for m in TERMS + ("total",)} if out == "ok" else {}, **probe(t)))
            if t in (0, n // 2, n - 1):
                for w in sorted({1, 2, 3, 4, 5, min(n, 120), min(n, 120) + 1, 50, n + 1}):
                    out, dg = call(ag.get_loss_diagnostics, w) if w != 50 else call(ag.get_loss_diagnostics)
                    e = dict(a="diag", w=w, out=out, empty=out == "ok" and not dg)
                    if out == "ok" and dg:
                        e.update(mean={m: r(dg.get(m + "_mean", "nan")) for m in TERMS + ("total",)}, std={m: r(dg.get(m + "_std", "nan")) for m in TERMS + ("total",)}, dom=r(dg.get("dominance_ratio", "nan")), domname=str(dg.get("dominant_component")),
                                 imp=r(dg.get("improvement_ratio", 0.)), stab=r(dg.get("stability", 0.)))
                    ev.append(e)
                    if w >= 2:
                        for ep in (w - 1, w, w + 7):
                            out, ad = call(ag.should_adjust_learning_rate, ep, w) if w != 50 else call(ag.should_adjust_learning_rate, ep)
                            e = dict(a="adv", w=w, epoch=ep, out=out)
                            if out == "ok":
                                e.update(reason=ad["reason"], adjust=bool(ad["adjust"]), factor=r(ad.get("factor", 1.)))
                                reasons[ad["reason"]] = reasons.get(ad["reason"], 0) + 1
                            ev.append(e)
                out, i = call(ag.get_current_loss_info)
                ev.append(dict(a="info", empty=out == "ok" and not i, **({} if out != "ok" or not i else dict(total=r(i["total_current"]), mse=r(i["mse_current"]), coh=r(i["coherence_current"]), msea=r(i["mse_avg"]), coha=r(i["coherence_avg"])))))
    ev += scales(c, rng)
    c.cov["advice_seen"] = reasons
    c.trace("LossTrace", ev, what="histories of the loss")


def scales(c, rng):
    """Histories of the magnitudes kept to balance the terms."""
    ev = []
    for q in c.timely(range(c.n(40, 300))):
        ev.append(dict(a="reset"))
        with quiet():
            ag = LossAggregator(D.LossParameters(), torch.tensor([.1, 1., 10.], dtype=torch.float64), 1., tb_log_dir=c.scratch + "/tb")
        t = int(rng.choice([0, 0, 1, 5]))
        for _ in range(int(rng.randint(1, 26))):
            m = float(rng.choice([rng.rand(), 10 * rng.rand(), 1e-9, 0.]))
            k = rng.choice(["none", "zero", "pos"])
            coh = dict(none=None, zero=torch.tensor(0., dtype=torch.float64), pos=torch.tensor(3 * rng.rand(), dtype=torch.float64))[k]
            out, v = call(ag.compute_loss_scales, t, torch.tensor(m, dtype=torch.float64), coh)
            ev.append(dict(a="scale", epoch=t, mse=r(m), coh="none" if coh is None else r(coh), out=out, scales=rs(v) if out == "ok" else []))
            t += int(rng.choice([1, 1, 1, 0, 5]))
    return ev
