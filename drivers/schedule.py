"""The learning-rate schedules a problem offers (C30)."""
from .api import *
from .fieldvals import PICK, uniq
from vlib import cover
from . import plots

MC = """SPECIFICATION Spec
CONSTANTS MaxE = %d Vals = {"0.01","1","30"}
INVARIANTS Between StartsDouble NeverRises EndsLow SmallStepsInTheMiddle WaitsForLosses OutOfBalance
CHECK_DEADLOCK FALSE
"""


def C30(c):
    c.model("ScheduleMC", MC % c.n(3, 4))
    hs = uniq(c.scenarios("ScheduleSim", PICK, num=3 * c.n(120, 1000), depth=20))
    rng = np.random.RandomState(c.seed)
    hs = cover.order(hs, rng, c=c)
    ev = []
    pb = plots.new(4, 3, (.6, 2., 1.), .4, c.scratch, None)
    for h in c.timely(hs[:c.n(150, 1500)]):
        ev.append(dict(a="reset"))
        lr = float(h["lr"])
        ps = [torch.nn.Parameter(torch.ones(2)), torch.nn.Parameter(torch.ones(1))]
        opt = dict(Adam=lambda: torch.optim.Adam(ps, lr=lr), LBFGS=lambda: torch.optim.LBFGS(ps, lr=lr), SGD2=lambda: torch.optim.SGD([dict(params=ps[:1]), dict(params=ps[1:], lr=3 * lr)], lr=lr))[h["opt"]]()
        val = lambda k: float(rng.choice([1e-3, .2, 7., 300.])) if h[k] == "noise" else float(h[k])
        hist = dict(ops=[], coherence=[], total=[])
        def remember(n):
            new = [(val("ops"), val("coh")) for _ in range(n)]
            for a, b in new:
                hist["ops"].append(a), hist["coherence"].append(b), hist["total"].append(a + b)
            return dict(ops=[r(a) for a, _ in new], coh=[r(b) for _, b in new])
        ad = h["kind"] == "adaptive"
        if hasattr(pb, "loss_history"):
            del pb.loss_history
        new = remember(h["before"] if ad else 0)
        if ad and h["before"]:
            pb.loss_history = hist
        p0 = rs(pb.parameters)
        lr0 = [g["lr"] for g in opt.param_groups]
        out, sch = call(pb.get_adaptive_multi_scheduler if ad else pb.get_three_phase_scheduler, opt, h["E"])
        def kept():
            return rs(pb.parameters) == p0 and all(bool((p == 1).all()) for p in ps) and (not ad or not h["before"] or pb.loss_history is hist)
        ev.append(dict(a="start", kind=h["kind"], E=h["E"], lr=rs(lr0), out=out, rates=rs([g["lr"] for g in opt.param_groups]), kept=kept(), **new))
        if out != "ok":
            continue
        if ad and not h["before"]:
            hist = pb.loss_history
        for t in range(h["E"]):
            new = remember(h["per"] if ad else 0)
            def step():
                for p in ps:
                    p.grad = torch.zeros_like(p)
                opt.step(lambda: torch.zeros((), requires_grad=True) * 1.) if h["opt"] == "LBFGS" else opt.step()
                sch.step()
            out, _ = call(step)
            ev.append(dict(a="epoch", out=out, rates=rs([g["lr"] for g in opt.param_groups]), kept=kept(), **new))
    c.trace("ScheduleTrace", ev, what="learning-rate schedules")
