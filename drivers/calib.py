"""Calibration runs (C15) and component selection (C18)."""
import re
from .api import *
from .fieldvals import PICK, uniq
from vlib import cover
from . import problem as pr

DT = dict(f32=torch.float32, f64=torch.float64)


@contextlib.contextmanager
def watch(log):
    """Record every optimizer step: losses its closure returned, learning rate, parameters covered."""
    saved = {}
    def wrap(cls):
        orig = cls.step
        saved[cls] = orig
        def step(self, closure=None, *a, **k):
            g = self.param_groups
            rec = dict(losses=[], lr=r(g[0]["lr"]), covered=sum(p.numel() for x in g for p in x["params"]), iters=int(g[0].get("max_iter", 0)))
            log.append(rec)
            def cl():
                v = closure()
                rec["losses"].append(r(v.detach()))
                return v
            return orig(self, cl if closure is not None else None, *a, **k)
        cls.step = step
    wrap(torch.optim.LBFGS)
    wrap(torch.optim.Adam)
    try:
        yield
    finally:
        for k, v in saved.items():
            k.step = v


def custom(n, rng, dt, zref=40., shift=0., order="up"):
    k1 = np.logspace(-1, 1, n) / zref * 10 ** shift
    k1 = k1[::-1] if order == "down" else np.roll(k1, 2)[np.r_[1, 0, 2:n]] if order == "mixed" else k1
    k1 = torch.tensor(k1.copy(), dtype=dt)
    ops = np.exp(.7 * rng.randn(n, 3, 3)) * .1
    ops[:, 0, 2] *= -1
    return dict(k1=k1, ops=torch.tensor(ops, dtype=dt), coherence=None)


def problem(h, c, tol, ph, nc=None):
    et, nl, nh, nu, sp = pr.ARCHS[h["arch"]]
    on = h["pen"] == "all"
    return D.CalibrationProblem(nn_params=D.NNParameters(nlayers=nl, hidden_layer_size=nh, activations=[torch.nn.ReLU() for _ in range(nl)]),
                                prob_params=D.ProblemParameters(eddy_lifetime=getattr(pr.ET, et), nepochs=h["epochs"], wolfe_iter_count=h["wolfe"], learn_nu=nu, use_learnable_spectrum=sp,
                                                                num_components=h["nc"] if nc is None else nc, tol=tol, learning_rate=float(h["lr"])),
                                loss_params=D.LossParameters(alpha_pen1=.3 * on, alpha_pen2=.2 * on, beta_reg=1e-2 if on else 0.),
                                phys_params=D.PhysicalParameters(L=ph[0], Gamma=ph[1], sigma=ph[2], zref=40., ustar=.4), integration_params=pr.INTEG(), logging_directory=c.scratch + "/tb", output_directory=c.scratch)


def start(h, c, tol, q, nc=None, ph=(.6, 2.5, 1.4)):
    """A problem whose network weights matter, the same for equal q."""
    torch.manual_seed(q)
    pb = problem(h, c, tol, ph, nc)
    if pr.ARCHS[h["arch"]][0] == "TAUNET":
        g = np.random.RandomState(q)
        with torch.no_grad():
            for x in pb.OPS.tauNet.parameters():
                if x.dim() > 1:
                    x += .3 * torch.tensor(np.abs(g.randn(*x.shape)), dtype=x.dtype)
    return pb


def go(pb, dat, opt, log):
    with watch(log):
        return pb.calibrate(dat, optimizer_class=getattr(torch.optim, opt))


def clone(dat):
    return {k: (v.clone() if torch.is_tensor(v) else v) for k, v in dat.items()}


def same(a, b):
    return set(a) == set(b) and all(torch.equal(a[k].nan_to_num(7.), b[k].nan_to_num(7.)) if torch.is_tensor(a[k]) else a[k] is b[k] for k in a)


def C15(c):
    c.model("CalibMC", 'SPECIFICATION Spec\nCONSTANTS Max = %d Tol = "0.1" Vals = {"inf","nan","0.5","0.01","0.1"}\nINVARIANTS AtMost StopRule NeverEarly NoResultFromNonFinite\nPROPERTY Terminates\n' % c.n(5, 7))
    hs = uniq(c.scenarios("CalibSim", PICK, num=3 * c.n(45, 400), depth=20))
    rng = np.random.RandomState(c.seed)
    hs = cover.order(hs, rng, c=c)
    ev, stops = [], {}
    st = torch.get_rng_state()
    # runs long enough for the learning-rate advice to be taken
    hs = hs[:c.n(90, 900)] + [dict(arch=a, nc=3, epochs=n, opt=o, tol="zero", lr=lr, wolfe=2, pen="none", dtype="f64", spoil="no", order="up")
                              for a, n, o, lr in [(7, 53, "Adam", "0.1"), (6, 120, "Adam", "0.01"), (2, 55, "LBFGS", "0.1"), (4, 101, "Adam", "1e-7"), (5, 52, "Adam", "1e-3")][:c.n(4, 5)]]
    for q, h in enumerate(c.timely(hs)):
        dt = DT[h["dtype"]]
        torch.set_default_dtype(dt)
        try:
            dat = custom(int(rng.randint(4, 8)), rng, dt, order=h["order"].strip())
            sp = h["spoil"].strip()
            if sp != "no":
                dat["ops"][int(rng.randint(len(dat["k1"]))), 1, 1] = dict(zero=0., nan=float("nan"), inf=float("inf"))[sp]
            keep = clone(dat)
            tm = h["tol"].strip()
            tol = {"zero": 0., "huge": 1e9}.get(tm, 0.)
            if tm in ("mid", "early") and sp == "no":
                # a tolerance between losses this very problem goes through
                log = []
                out, _ = call(lambda: go(start(h, c, 0., q), dat, h["opt"], log))
                ls = [float(x["losses"][-1]) for x in log if x["losses"]]
                if out == "ok" and ls:
                    i = 0 if tm == "early" else len(ls) // 2
                    tol = ls[i] * (1 + 1e-3) if q % 2 else ls[i]      # equal to a loss: not below it
            log = []
            def run():
                pb = start(h, c, tol, q)
                return pb, pb.parameters.copy()
            out, val = call(run)
            if out != "ok":
                ev.append(dict(a="run", h=h, out=out, epochs=[], max=h["epochs"], intact=True, spoiled=False, mayfail=False, fresh=False))
                continue
            pb, th0 = val
            times = 2 if q % 4 == 1 else 1                            # a second calibration of the same problem
            for rep in range(times):
                log = []
                th0 = pb.parameters.copy()
                had = getattr(pb, "calibrated_params", None)
                out, res = call(go, pb, dat, h["opt"], log)
                th = np.asarray(pb.parameters)
                log = [x for x in log if x["losses"]] if out != "ok" else log
                e = dict(a="run", h=h, rep=rep, out=out, epochs=[x if x["losses"] else dict(x, losses=["nan"]) for x in log], max=h["epochs"], tol=r(tol), lr=h["lr"], opt=h["opt"], wolfe=h["wolfe"], spoiled=sp != "no",
                         mayfail=float(h["lr"]) >= 1, intact=same(keep, dat), fresh=getattr(pb, "calibrated_params", None) is not had, nparam=len(th), learn=pr.ARCHS[h["arch"]][4],
                         eps="1e-6" if dt == torch.float32 else "1e-13", rtol="1e-3" if dt == torch.float32 else "1e-6", again=[])
                if out == "ok":
                    vals = list(res.values())
                    e.update(res=rs(vals), theta=rs(th), stored=pb.calibrated_params == res, moved=[int(i) for i in np.flatnonzero(th == th0)])
                    stops[len(log)] = stops.get(len(log), 0) + 1
                    if rep == 0 and q % 3 == 0 and np.isfinite(th).all():
                        np.random.rand(3), torch.rand(5)
                        out2, th2 = call(lambda: (lambda p2: (go(p2, clone(keep), h["opt"], []), p2.parameters)[1])(start(h, c, tol, q)))
                        e["again"] = rs(th2) if out2 == "ok" else ["nan"]
                ev.append(e)
                if out != "ok":
                    break
        finally:
            torch.set_default_dtype(torch.float32)
    torch.set_rng_state(st)
    c.cov["epochs_run"] = stops
    c.cov["outcomes"] = {o: sum(e["out"] == o for e in ev) for o in {e["out"] for e in ev}}
    c.trace("CalibTrace", ev, ntraces=len(ev), what="calibration runs")


def panels():
    import matplotlib.pyplot as plt
    best = []
    for num in plt.get_fignums():
        axs = [a for a in plt.figure(num).get_axes() if len(re.findall(r"\d", a.get_title())) == 2]
        if len(axs) > len(best):
            best = axs
    out = []
    for a in best:
        m = [l for l in a.get_lines() if l.get_marker() in (None, "None", "", " ")]
        d = [l for l in a.get_lines() if l.get_marker() not in (None, "None", "", " ")]
        f = lambda l: rs(np.asarray(l.get_ydata(), dtype=float))
        out.append(dict(comp="".join(re.findall(r"\d", a.get_title())), x=rs(np.asarray(m[0].get_xdata(), dtype=float)) if m else [], model=f(m[0]) if len(m) == 1 else [], data=f(d[0]) if len(d) == 1 else [["0"]] * len(d)))
    plt.close("all")
    return out


def C18(c):
    hs = uniq(c.scenarios("CalibSim", PICK, num=3 * c.n(40, 300), depth=20))
    rng = np.random.RandomState(c.seed)
    hs = cover.order(hs, rng, c=c)
    ev = []
    st = torch.get_rng_state()
    for q, h in enumerate(c.timely(hs[:c.n(45, 400)])):
        dt = DT[h["dtype"]]
        torch.set_default_dtype(dt)
        nc = h["nc"]
        h = dict(h, epochs=1)
        try:
            dat = custom(int(rng.randint(4, 8)), rng, dt, order=h["order"].strip())
            def first(d, opt="Adam"):
                pb = start(h, c, 0., q)
                y = np.asarray(pb.eval(d["k1"]))
                th = np.asarray(pb.parameters, dtype=float)
                log = []
                with watch(log):
                    pb.calibrate(d, optimizer_class=getattr(torch.optim, opt))
                return pb, y, th, log
            out, val = call(first, dat, h["opt"])
            e = dict(a="fit", h=h, nc=nc, out=out, k=rs(dat["k1"]), z="40.0", data=rows(dat["ops"].numpy()), tol="1e-4" if dt == torch.float32 else "1e-9")
            if out != "ok":
                ev.append(e)
                continue
            pb, y, th, log = val
            on = h["pen"] == "all"
            nn = 3 + 2 * pr.ARCHS[h["arch"]][4]
            e.update(model=rows(y), th=rs(th[nn:]) if pr.ARCHS[h["arch"]][0] == "TAUNET" else [], first=[log[0]["losses"][0]] + [r(pb.LossAggregator.component_losses["total"][0])] if hasattr(getattr(pb, "LossAggregator", None), "component_losses") else [log[0]["losses"][0]],
                     w=dict(a1=r(.3 * on), a2=r(.2 * on), b=r(1e-2 if on and pr.ARCHS[h["arch"]][0] == "TAUNET" else 0.), g="0"))
            ev.append(e)
            # influence of every entry of the data tensor
            base = log[0]["losses"] + rs(pb.parameters)
            for i, (a, b) in enumerate([(0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1), (1, 0), (2, 0), (2, 1)]):
                if not c.thorough and i in (1, 7, 8):
                    continue
                d2 = clone(dat)
                d2["ops"][:, a, b] *= 1.7
                if i >= nc and q % 2:
                    d2["ops"][:, a, b] = float("nan")
                out, v2 = call(first, d2, h["opt"])
                ev.append(dict(a="infl", h=h, i=i, out=out, selected=i < nc) | (dict(A=base, B=v2[3][0]["losses"] + rs(v2[0].parameters)) if out == "ok" else {}))
            # the picture
            if q >= c.n(9, 60):
                continue
            y1 = np.asarray(pb.eval(dat["k1"]))
            out, _ = call(pb.plot, plot_tau=bool(q % 2))
            ev.append(dict(a="plot", h=h, nc=nc, out=out, ustar="0.4", k=rs(dat["k1"]), model=rows(y1), data=rows(dat["ops"].numpy()), panels=panels() if out == "ok" else []))
            if q % 3 == 0:
                d3 = custom(5, rng, dt)
                y3 = np.asarray(pb.eval(d3["k1"]))
                pts = torch.stack([d3["k1"], torch.full_like(d3["k1"], 40.)], dim=-1).tolist()
                out, _ = call(pb.plot, OPSData=(pts, d3["ops"]), plot_tau=False)
                ev.append(dict(a="plot", h=h, nc=nc, out=out, ustar="0.4", k=rs(d3["k1"]), model=rows(y3), data=rows(d3["ops"].numpy()), panels=panels() if out == "ok" else []))
        finally:
            torch.set_default_dtype(torch.float32)
    torch.set_rng_state(st)
    for nc in range(-1, 11):
        out, _ = call(lambda: problem(hs[0], c, 0., (1., 1., 1.), nc))
        ev.append(dict(a="nc", nc=nc, out=out))
    c.trace("CalibTrace", ev, ntraces=len(hs), what="selected components")
