"""The log of a run (C29)."""
import tempfile
from .api import *
from vlib import cover
from . import problem as pr, calib
from .loss import TERMS, LossAggregator
from .spectra import coh_file

MC = """SPECIFICATION Spec
CONSTANTS Runs = {%s} Vals = {%s} Max = %d
INVARIANTS OnePerEvaluation OnlyActive SharesSumToOne Shared
PROPERTY Grows
CHECK_DEADLOCK FALSE
"""
SIM = "SPECIFICATION Spec\nCONSTANTS Depth = %d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def files(*roots):
    return {os.path.join(d, f) for root in roots for d, _, fs in os.walk(root) for f in fs if "tfevents" in f}


def series(path):
    """What TensorBoard reads from a log."""
    from tensorboard.backend.event_processing.event_accumulator import EventAccumulator
    with quiet():
        acc = EventAccumulator(path, size_guidance=dict(scalars=0, tensors=0), purge_orphaned_data=False)
        acc.Reload()
        return {t: [dict(step=int(x.step), val=r(x.value)) for x in acc.Scalars(t)] for t in acc.Tags()["scalars"]}


def program(c, h, q, rng):
    ev = [dict(a="reset")]
    root = tempfile.mkdtemp(prefix="log", dir=c.scratch)
    runs, nfail = [], 0
    def read(n):
        R = runs[n]
        R["ag"].writer.flush()
        return dict(a="read", r=n + 1, series=series(R["file"]), tol="1e-6" if R["f64"] else "2e-5", elsewhere=len(files(root, "runs")) - n0 == len(runs))
    n0 = len(files("runs"))
    for o in h["ops"] + [dict(op="read")]:
        if o["op"] == "open":
            d = o["dir"].strip()
            comment = "-q%dr%d" % (q, len(runs))
            was = files(root, "runs")
            dt = torch.float64 if o["f64"] else torch.float32
            w = {k: float(v) for k, v in o["w"].items()}
            def make():
                k = torch.tensor(np.logspace(-1, 1, 4), dtype=dt)
                ag = LossAggregator(D.LossParameters(alpha_pen1=w["a1"], alpha_pen2=w["a2"], beta_reg=w["b"], gamma_coherence=w["g"]), k, 2.,
                                    tb_log_dir=None if d == "default" else os.path.join(root, d), tb_comment=comment if d == "default" else "")
                ag.writer.flush()
                return ag
            out, ag = call(make)
            new = sorted(files(root, "runs") - was)
            where = os.path.dirname(new[0]) if new else ""
            ok = len(new) == 1 and (where == os.path.join(root, d) if d != "default" else where.startswith("runs" + os.sep) and where.endswith(comment))
            ev.append(dict(a="open", out=out, w=o["w"], newdir=ok, dir=d))
            if out != "ok" or len(new) != 1:
                return ev
            runs.append(dict(ag=ag, file=new[0], f64=o["f64"], step=-1, dt=dt))
        elif o["op"] in ("ev", "fail"):
            R = runs[o["r"] - 1]
            t = lambda x: torch.tensor(x, dtype=R["dt"])
            spoiled = o["op"] == "fail"
            if spoiled:
                nfail += 1
                step, amp, coh, th = 1000 + nfail, 1., False, False
            else:
                step = dict(next=max(0, R["step"] + 1), same=max(0, R["step"]), zero=0, jump=R["step"] + 7)[o["mode"].strip()]
                R["step"], amp, coh, th = step, float(o["amp"]), o["coh"], o["th"]
            d = np.exp(rng.randn(3, 4))
            y = d * np.exp(amp * rng.randn(3, 4))
            if spoiled:
                y[1, 2] = np.nan
            cs = [f32(rng.rand(2, 3)) for _ in range(3)] if coh else []
            cs += [f32(x + amp * rng.rand(2, 3)) for x in cs]
            cd = dict(zip(("model_u", "model_v", "model_w", "data_u", "data_v", "data_w"), [t(x) for x in cs])) if coh else None
            out, v = call(lambda: R["ag"].eval(t(y), t(d), t(amp * rng.randn(5)) if th else None, step, coherence_data=cd))
            ev.append(dict(a="ev", r=o["r"], out=out, spoiled=spoiled, step=step, th=th, coh=[rows(x) for x in cs], val={m: r(R["ag"].component_losses[m][-1]) for m in TERMS} if out == "ok" else {}))
        else:
            ev += [read(n) for n in range(len(runs))]
    for R in runs:
        R["ag"].writer.close()
    return ev


def f32(x):
    return np.asarray(x, dtype=np.float32).astype(float)


def calibrations(c, rng):
    """Logs of whole calibrations, several into one directory."""
    ev = []
    for q in c.timely(range(c.n(12, 80))):
        ev.append(dict(a="reset"))
        root = tempfile.mkdtemp(prefix="cal", dir=c.scratch)
        f64 = q % 2 == 0
        torch.set_default_dtype(torch.float64 if f64 else torch.float32)
        try:
            arch = int(rng.choice([1, 4, 5, 6, 7]))
            et, nl, nh, nu, sp = pr.ARCHS[arch]
            on = rng.rand(3) < .6
            coh = q % 3 == 0
            w = dict(a1=.3 * on[0], a2=.2 * on[1], b=1e-2 * on[2], g=.7 if coh or q % 5 == 0 else 0.)
            def make():
                torch.manual_seed(q)
                return D.CalibrationProblem(nn_params=D.NNParameters(nlayers=nl, hidden_layer_size=nh, activations=[torch.nn.ReLU() for _ in range(nl)]),
                                            prob_params=D.ProblemParameters(eddy_lifetime=getattr(pr.ET, et), nepochs=int(rng.choice([1, 2, 4, 7])), wolfe_iter_count=int(rng.choice([1, 3])), learn_nu=nu, use_learnable_spectrum=sp,
                                                                            num_components=int(rng.choice([3, 4, 6])), tol=float(rng.choice([0., 1e9])), learning_rate=.05),
                                            loss_params=D.LossParameters(alpha_pen1=w["a1"], alpha_pen2=w["a2"], beta_reg=w["b"], gamma_coherence=w["g"]),
                                            phys_params=D.PhysicalParameters(L=.6, Gamma=2., sigma=1., zref=40., ustar=.4), integration_params=pr.INTEG(), logging_directory=root, output_directory=c.scratch)
            dat = calib.custom(5, rng, torch.get_default_dtype())
            if coh:
                seps, fr = np.sort(rng.uniform(.1, 5., 4)), np.sort(np.exp(rng.uniform(-3, 1, 3)))
                coh_file(root + "/coh.dat", seps.tolist(), fr.tolist(), rng.rand(3, 4, 3).tolist())
            out, pb = call(make)
            opt = getattr(torch.optim, ["Adam", "LBFGS"][q // 2 % 2])
            for rep in range(2 if q % 4 == 1 else 1):
                was = {f: open(f, "rb").read() for f in files(root)}
                log = []
                if out == "ok":
                    with_coh = coh and not (rep and q % 8 == 1)            # the second time perhaps without
                    def go():
                        with calib.watch(log):
                            pb.calibrate(dat, optimizer_class=opt, **(dict(coherence_data_file=root + "/coh.dat") if with_coh else {}))
                    out, _ = call(go)
                e = dict(a="calib", out=out, th=et == "TAUNET", w={k: r(v) for k, v in w.items()}, coh=coh and not (rep and q % 8 == 1), rep=rep, opt=opt.__name__, series={}, hist={}, evals=0, files=0, earlier=True, tol="1e-6" if f64 else "2e-5")
                if out == "ok":
                    pb.LossAggregator.writer.close()
                    new = sorted(files(root) - set(was))
                    e.update(files=len(new), evals=1 + sum(len(x["losses"]) for x in log), earlier=all(open(f, "rb").read() == b for f, b in was.items()),
                             hist={m: rs(pb.LossAggregator.component_losses[m]) for m in TERMS}, series=series(new[0]) if new else {})
                ev.append(e)
        finally:
            torch.set_default_dtype(torch.float32)
    return ev


def C29(c):
    c.model("RunLogMC", MC % (c.n("1", "1,2"), '"0","2.0"', c.n(3, 2)))
    hs, seen = [], set()
    depth = 9
    for h in c.scenarios("RunLogSim", SIM % depth, num=c.n(300, 3000), depth=2 * depth + 2):
        k = repr(h)
        if k not in seen:
            seen.add(k)
            hs.append(h)
    def lab(o):
        if o["op"] == "open":
            return None
        return (o["op"], o.get("mode", "").strip(), o.get("coh"), o.get("th")) if o["op"] == "ev" else (o["op"],)
    pats = cover.subseqs(lab, 2)
    hs = cover.choose(c, hs, lambda h: pats(h["ops"]), c.n(90, 900))
    rng = np.random.RandomState(c.seed)
    st = torch.get_rng_state()
    ev = []
    for q, h in enumerate(c.timely(hs)):
        ev += program(c, h, q, rng)
    ev += calibrations(c, rng)
    torch.set_rng_state(st)
    c.cov["log_entries_read"] = sum(len(s) for e in ev if e["a"] in ("read", "calib") for s in e["series"].values())
    c.trace("RunLogTrace", ev, what="logs of runs")
