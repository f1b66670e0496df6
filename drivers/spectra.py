"""Model evaluation: eddy lifetimes (C21), one-point spectra (C20), coherence (C22), absence of side effects (C19)."""
import os
from pathlib import Path
from .api import *
from .fieldvals import PICK, uniq
from vlib import cover
from . import problem as pr
from drdmannturb.nn_modules import TauNet

DT = dict(f32=torch.float32, f64=torch.float64)


def weights(net):
    return [p.detach().numpy().astype(float) for p in net.parameters() if p.dim() == 2]


def nu_of(net):
    v = [p for p in net.parameters() if p.dim() < 2]
    return float(v[0]) if v else -1. / 3


def set_weights(net, how, rng, nonneg=False):
    if how == "init":
        return
    with torch.no_grad():
        for p in net.parameters():
            if p.dim() == 2:
                w = rng.randn(*p.shape) * dict(zero=0., some=.4, large=3.)[how]
                p.copy_(torch.tensor(np.abs(w) if nonneg else w, dtype=p.dtype))


def build(et, L, G, S, net=(2, 3), nu="fixed", sp=False, integ=None, p=4., q=17. / 6, **phys):
    return D.CalibrationProblem(nn_params=D.NNParameters(nlayers=net[0], hidden_layer_size=net[1], activations=[torch.nn.ReLU() for _ in range(net[0])]),
                                prob_params=D.ProblemParameters(eddy_lifetime=getattr(pr.ET, et), learn_nu=nu == "learned", use_learnable_spectrum=sp, p_exponent=p, q_exponent=q),
                                loss_params=D.LossParameters(), phys_params=D.PhysicalParameters(L=L, Gamma=G, sigma=S, **phys), integration_params=integ or pr.INTEG())


def model_of(pb, et, L, G):
    m = dict(et=et, L=r(L), G=r(G))
    if et == "TAUNET":
        net = pb.OPS.tauNet
        ws = weights(net)
        m.update(ws=[rows(w) for w in ws], acts=["ReLU"] * (len(ws) - 1), nu=r(nu_of(net)))
    return m


def wavevectors(n, L, rng, lo=1e-3, hi=1e3):
    mag = np.exp(rng.uniform(np.log(lo), np.log(hi), n)) / L
    k = rng.randn(n, 3)
    k[0] = (1, 0, 0)
    k[1 % n] = (0, -1, 0)
    k[2 % n] = (0, 0, 1)
    k[3 % n] = (1, 1, 0)
    return k / np.linalg.norm(k, axis=1)[:, None] * mag[:, None]


def C21(c):
    c.model("LifetimeMC", "SPECIFICATION Spec\nCONSTANTS Ks = {%s} Ls = {\"0.2\",\"3.0\"}\nINVARIANTS Positive SignFree Similar NoNet AboveInertial\n" % c.n('"-2.1","0","0.7"', '"-40.0","-2.1","0","0.02","0.7"'))
    hs = uniq(c.scenarios("LifetimeSim", PICK, num=3 * c.n(70, 700), depth=20))
    rng = np.random.RandomState(c.seed)
    hs = cover.order(hs, rng, c=c)
    ev = []
    st = torch.get_rng_state()
    for q, h in enumerate(c.timely(hs[:c.n(130, 1400)])):
        dt = DT[h["dtype"]]
        et = h["et"].strip()
        torch.set_default_dtype(dt)
        try:
            L, G = float(h["L"]), float(h["G"])
            torch.manual_seed(q + 1000 * c.seed)
            def make():
                if h["set"] == "phys":
                    pb = build(et, L, G, 1.3, tuple(h["net"]), h["nu"])
                else:
                    pb = build(et, 2.2, .7, 1.3, tuple(h["net"]), h["nu"])
                    v = pb.parameters.copy()
                    v[:3] = np.log([L, G, 4.])
                    pb.parameters = v
                if et == "TAUNET":
                    set_weights(pb.OPS.tauNet, h["w"], rng, nonneg=True)
                return pb
            out, pb = call(make)
            if out != "ok":
                ev.append(dict(a="tau", h=h, out=out))
                continue
            n = 1 if h["shape"] in ("single", "bare") else 6
            k = wavevectors(n, L, rng, *((1e-6, 1e-2) if h["reach"] == "long" else (1e2, 1e5) if h["reach"] == "short" else ()))
            t = torch.tensor(k, dtype=dt)
            if h["shape"] in ("grid", "deep", "bare"):
                t = t.reshape(dict(grid=(2, 3, 3), deep=(3, 1, 2, 3), bare=(3,))[h["shape"]])
            k = t.double().reshape(-1, 3).numpy()
            t0 = t.clone()
            out, b = call(lambda: pb.OPS.EddyLifetime(t).detach())
            sg = torch.tensor(np.where(rng.rand(*k.shape) < .5, -1., 1.).reshape(t.shape), dtype=dt)
            out2, b2 = call(lambda: pb.OPS.EddyLifetime(t * sg).detach())
            ev.append(dict(a="tau", h=h, out=out if out != "ok" else out2, direct=False, m=model_of(pb, et, L, G), k=rows(k), b=rs(b) if out == "ok" else [], flips=rs(b2) if out2 == "ok" else [],
                           shape=out == "ok" and (tuple(b.shape) == tuple(t.shape[:-1]) or h["shape"] == "bare" and b.numel() == 1), intact=bool(torch.equal(t, t0)), tol="1e-8" if dt == torch.float64 else "3e-4"))
        finally:
            torch.set_default_dtype(torch.float32)
    # the network by itself: sizes, activations, exponents
    torch.set_default_dtype(torch.float64)
    try:
        A = dict(ReLU=torch.nn.ReLU, Tanh=torch.nn.Tanh, Sigmoid=torch.nn.Sigmoid, Identity=torch.nn.Identity, LeakyReLU=torch.nn.LeakyReLU)
        for q in c.timely(range(c.n(60, 500))):
            nl = int(rng.randint(1, 5))
            sizes = [int(x) for x in rng.randint(1, 7, nl)]
            names = [list(A)[i] for i in rng.randint(0, len(A), nl)]
            mode = q % 4
            nu = float(rng.choice([-1 / 3, 0., -.5, .6]))
            if mode == 0:
                names = ["ReLU"] * nl
                mk = lambda: TauNet(nl, sizes, learn_nu=bool(q % 3), nu_init=nu)
            elif mode == 1:
                names = [names[0]] * nl
                mk = lambda: TauNet(nl, sizes, activations=A[names[0]](), learn_nu=bool(q % 3), nu_init=nu)
            elif mode == 2:
                sizes = [sizes[0]] * nl
                mk = lambda: TauNet(nl, sizes[0], activations=[A[x]() for x in names], learn_nu=bool(q % 3), nu_init=nu)
            else:
                mk = lambda: TauNet(nl, sizes, activations=[A[x]() for x in names], learn_nu=bool(q % 3), nu_init=nu)
            out, net = call(mk)
            if out != "ok":
                ev.append(dict(a="tau", sizes=sizes, out=out))
                continue
            set_weights(net, "some", rng, nonneg=q % 2 == 0)
            k = wavevectors(5, 1., rng)
            t = torch.tensor(k)
            t0 = t.clone()
            out, b = call(lambda: net(t).detach())
            out2, b2 = call(lambda: net(t * torch.tensor(np.where(rng.rand(5, 3) < .5, -1., 1.))).detach())
            ev.append(dict(a="tau", sizes=sizes, direct=True, out=out if out != "ok" else out2, m=dict(ws=[rows(w) for w in weights(net)], acts=names, nu=r(nu_of(net) if q % 3 else nu)), k=rows(k), b=rs(b) if out == "ok" else [],
                           flips=rs(b2) if out2 == "ok" else [], shape=out == "ok" and tuple(b.shape) == (5,), intact=bool(torch.equal(t, t0)), tol="1e-7"))
        # the functions by themselves
        for q in c.timely(range(c.n(30, 200))):
            name = ["mann", "approx", "rational"][q % 3]
            x = np.exp(rng.uniform(-9, 9, int(rng.randint(1, 8))) * (1.6 if name == "mann" else 1.))
            x = x.reshape(1, -1, 1) if q % 4 == 0 and name != "rational" else x
            p, w = float(rng.choice([-1 / 3, -.7, 0., .4])), float(rng.uniform(-1, 1))
            t = torch.tensor(x) if q % 2 or name != "mann" else x.copy()
            f = dict(mann=D.MannEddyLifetime, approx=lambda v: D.Mann_linear_exponential_approx(v, torch.tensor(p), torch.tensor(w)), rational=lambda v: D.Rational(learn_nu=q % 2 == 0, nu_init=p)(v))[name]
            out, y = call(lambda: f(t))
            y = y.detach() if torch.is_tensor(y) else y
            ev.append(dict(a="fun", name=name, out=out, x=rs(x), y=rs(y) if out == "ok" and tuple(y.shape) == x.shape else [], p=r(p), q=r(w), intact=bool(np.array_equal(np.asarray(t), x)), tol="1e-10"))
    finally:
        torch.set_default_dtype(torch.float32)
        torch.set_rng_state(st)
    c.trace("LifetimeTrace", ev, ntraces=len(ev), what="eddy lifetimes")


MCS = """SPECIFICATION Spec
CONSTANTS K1s = {%s} Ets = {"CONST","TWOTHIRD","MANN","MANN_APPROX"} Rs = {"-3.0","0","0.4","11.0"}
INVARIANTS %s
"""


def prepared(h, q, c, rng, scale_setter=True, **phys):
    """(problem, model record, physical L) for a scenario."""
    et = h["et"].strip()
    L, G, S = float(h["L"]), float(h["G"]), float(h["S"])
    learn = h["learn"].strip()
    p, qq = dict(no=(4., 17 / 6), vk=(4., 17 / 6), other=(2.7, 2.1))[learn]
    integ = D.IntegrationParameters(ops_log_min=float(h["lo"]), ops_log_max=float(h["hi"]), ops_num_points=h["n"], coh_log_min=float(h["lo"]), coh_log_max=float(h["hi"]), coh_num_points=h["n"])
    torch.manual_seed(q + 1000 * c.seed)
    if h["set"] == "phys":
        L0 = L
        pb = build(et, L, G, S, tuple(h["net"]), sp=learn != "no", integ=integ, p=p, q=qq, **phys)
    else:
        L0 = 1.7 * L
        pb = build(et, L0, .7, 2.2, tuple(h["net"]), sp=learn != "no", integ=integ, p=3., q=2., **phys)
        v = pb.parameters.copy()
        v[:3] = np.log([L, G, S])
        if learn != "no":
            v[3:5] = p, qq
        pb.parameters = v
    if et == "TAUNET":
        set_weights(pb.OPS.tauNet, "some", rng, nonneg=True)
    m = model_of(pb, et, L, G)
    m.update(S=r(S), learn=learn != "no", p=r(p), q=r(qq))
    return pb, m, L0


def C20(c):
    c.model("SpectraMC", MCS % (c.n('"0.02","0.9"', '"0.001","0.02","0.9","30.0"'), "DiagPositive Proportional VKisLearnable"))
    hs = uniq(c.scenarios("SpectraSim", PICK, num=3 * c.n(60, 600), depth=20))
    rng = np.random.RandomState(c.seed)
    hs = cover.order(hs, rng, c=c)
    ev = []
    st = torch.get_rng_state()
    for q, h in enumerate(c.timely(hs[:c.n(90, 900)])):
        dt = DT[h["dtype"].strip()]
        torch.set_default_dtype(dt)
        try:
            out, val = call(prepared, h, q, c, rng)
            if out != "ok":
                ev.append(dict(a="ops", h=h, out=out))
                continue
            pb, m, _ = val
            k1 = np.exp(rng.uniform(np.log(.02), np.log(20.), 3))
            t = torch.tensor(k1, dtype=dt)
            out, y = call(lambda: np.asarray(pb.eval(t) if q % 2 else pb.OPS(t).detach()))
            for j in range(3 if h["n"] < 5 else 1):
                ev.append(dict(a="ops", h=h, out=out, m=m, k1=r(t[j]), lo=h["lo"], hi=h["hi"], n=h["n"], f=rs(y[:, j]) if out == "ok" and y.shape == (6, 3) else [], shape=out == "ok" and y.shape == (6, 3),
                               tol="1e-7" if dt == torch.float64 else "1e-2"))
            if out != "ok":
                continue
            # proportional to the amplitude
            cc = float(rng.choice([.5, 2., 30.]))
            v = pb.parameters.copy()
            v[2] += np.log(cc)
            def scaled():
                pb.parameters = v
                return np.asarray(pb.eval(t))
            out, y2 = call(scaled)
            area = 4 * 10. ** (2 * float(h["hi"]))
            ev.append(dict(a="prop", h=h, out=out, c=r(cc), f=rs(y), g=rs(y2) if out == "ok" else [], tol="1e-8" if dt == torch.float64 else "1e-4", atol=r(1e-12 * area * (1 + cc) * k1.max() + (1e-6 * np.abs(y).max() if dt == torch.float32 else 0.))))
        finally:
            torch.set_default_dtype(torch.float32)
    # resolved grids: signs
    for q in c.timely(range(c.n(14, 60))):
        torch.set_default_dtype(torch.float64)
        try:
            et = ["MANN", "TAUNET", "TWOTHIRD", "CONST", "MANN_APPROX"][q % 5]
            L, G, S = float(np.exp(rng.uniform(-1., 1.5))), float(rng.uniform(.3, 4.)), float(rng.uniform(.5, 5.))
            def run():
                pb = build(et, L, G, S, integ=D.IntegrationParameters(ops_log_min=-3., ops_log_max=3., ops_num_points=50 if q else 100))
                return np.asarray(pb.eval(torch.tensor(np.logspace(-1, 2, 7) / L / 3)))
            out, y = call(run)
            ev.append(dict(a="sign", et=et, L=r(L), G=r(G), out=out, f13=rs(y[3]) if out == "ok" else [], diag=rs(y[:3]) if out == "ok" else []))
        finally:
            torch.set_default_dtype(torch.float32)
    # the energy spectra by themselves
    from drdmannturb import common
    for q in c.timely(range(c.n(30, 200))):
        name = ["vk", "vklike", "learned"][q % 3]
        dt = torch.float64 if q % 2 else torch.float32
        t = torch.tensor(np.exp(rng.uniform(-9, 9, int(rng.randint(1, 8)))), dtype=dt)
        if q % 4 == 0:
            t = t.reshape(1, -1, 1)
        t0, p, w = t.clone(), float(rng.uniform(1, 5)), float(rng.uniform(1, 4))
        f = dict(vk=common.VKEnergySpectrum, vklike=common.VKLike_EnergySpectrum, learned=lambda x: common.Learnable_EnergySpectrum(x, torch.tensor(p, dtype=dt), torch.tensor(w, dtype=dt)))[name]
        out, y = call(f, t)
        if dt == torch.float32:
            p, w = float(np.float32(p)), float(np.float32(w))
        ev.append(dict(a="energy", name=name, out=out, x=rs(t0), y=rs(y) if out == "ok" and y.shape == t0.shape else [], p=r(p), q=r(w), intact=bool(torch.equal(t, t0)), tol="1e-11" if dt == torch.float64 else "2e-4"))
    torch.set_rng_state(st)
    c.trace("SpectraTrace", ev, ntraces=len(ev), what="one-point spectra")


def coh_file(path, seps, freqs, coh):
    with open(path, "w") as f:
        f.write("# coherence data\nsep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\n")
        for i, s in enumerate(seps):
            for j, fr in enumerate(freqs):
                f.write("%d %d %r %r %r %r %r\n" % (i, j, s, fr, coh[0][i][j], coh[1][i][j], coh[2][i][j]))


def coh_cals(c, hs, rng, write=coh_file):
    """Calibrations with coherence data: the first loss evaluated."""
    from . import calib
    ev = []
    for q, h in enumerate(c.timely(hs)):
        torch.set_default_dtype(torch.float64)
        try:
            uref, fac = float(rng.choice([4., 10., 21.])), float(rng.choice([1., 2 * np.pi, 1 / (2 * np.pi)]))
            ns, nf = int(rng.randint(4, 9) if write is coh_file else rng.randint(1, 12)), int(rng.randint(2, 6))
            seps = np.sort(rng.uniform(.1, 5., ns))
            if write is not coh_file and q % 2:
                rng.shuffle(seps)
            seps = seps.tolist()
            fr = np.sort(np.exp(rng.uniform(-3, 1, nf)))
            if q % 2:
                fr[0] = 0.
            if q % 5 == 2:
                fr[-1] = np.exp(rng.uniform(-11, -5))      # hours
            if q % 4 == 3:
                fr[min(1, nf - 1)] = 1e-6
            fr = np.sort(fr)
            if q % 3 == 1:
                rng.shuffle(fr)     # files need not be ordered by frequency
            fr = fr.tolist()
            coh = rng.rand(3, ns, nf)
            path = os.path.join(c.scratch, "coh%d.dat" % q)
            write(path, seps, fr, coh.tolist())
            gamma = float(rng.choice([.3, 5., 100.]))
            default = q % 5 == 0
            def run():
                kw = {} if default else dict(wavenumber_conversion_factor=fac)
                pb, m, L0 = prepared(dict(h, dtype="f64"), q, c, rng, Uref=uref, **kw)
                pb.loss_params.gamma_coherence = gamma
                pb.prob_params.nepochs = 1
                pb.prob_params.wolfe_iter_count = 1
                sel = np.linspace(0, ns - 1, 4, dtype=int)
                fa = 1 / (2 * np.pi) if default else fac
                k1 = fa * np.array(fr) / uref
                use = [j for j in range(nf) if fr[j] > 1e-6]
                mod = np.ones((3, 4, nf))
                if use:
                    mod[:, :, use] = np.asarray(pb.OPS.SpectralCoherence(torch.tensor(k1[use]), torch.tensor(np.array(seps)[sel])).detach())
                dat = calib.custom(4, rng, torch.float64)
                y = np.asarray(pb.eval(dat["k1"]))
                nc = pb.prob_params.num_components
                idx = [(0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1)][:nc]
                mse = np.mean([np.log(np.abs(y[i] / dat["ops"][:, a, b].numpy())) ** 2 for i, (a, b) in enumerate(idx)])
                log = []
                pb.output_directory = c.scratch
                pb.logging_directory = c.scratch + "/tb"
                with calib.watch(log):
                    pb.calibrate(dat, coherence_data_file=path if q % 2 else Path(path), optimizer_class=torch.optim.Adam)
                return log[0]["losses"][0], mse, mod, coh[:, sel, :], k1, fa
            out, v = call(run)
            e = dict(a="cal", h=h, out=out, f=rs(fr), gamma=r(gamma), uref=r(uref))
            if out == "ok":
                e.update(first=v[0], mse=r(v[1]), mod=rows(v[2]), dat=rows(v[3]), k1=rs(v[4]), factor=r(v[5]))
            ev.append(e)
        finally:
            torch.set_default_dtype(torch.float32)
    return ev


def C22(c):
    c.model("SpectraMC", MCS % (c.n('"0.02","0.9"', '"0.001","0.02","0.9","30.0"'), "IsCoherence OneAtZero EvenInR"))
    hs = uniq(c.scenarios("SpectraSim", PICK, num=3 * c.n(60, 600), depth=20))
    rng = np.random.RandomState(c.seed)
    hs = cover.order(hs, rng, c=c)
    ev = []
    st = torch.get_rng_state()
    for q, h in enumerate(c.timely(hs[:c.n(60, 700)])):
        h = dict(h, S="1e-7") if h["tiny"] else h
        dt = DT[h["dtype"].strip()]
        torch.set_default_dtype(dt)
        try:
            out, val = call(prepared, h, q, c, rng)
            if out != "ok":
                ev.append(dict(a="coh", h=h, out=out))
                continue
            pb, m, L0 = val
            L = float(h["L"])
            k1 = np.exp(rng.uniform(np.log(.05), np.log(10.), int(rng.randint(1, 4)))) / L0
            seps = np.concatenate([[0.], rng.uniform(.01, 6., int(rng.randint(1, 4))) * L0, [float(rng.choice([1e-3, 40.])) * L0]])
            rng.shuffle(seps)
            if q % 9 == 4:  # many separations
                seps = np.concatenate([np.full(40, .5 * L0), seps])
            t, sp = torch.tensor(k1, dtype=dt), torch.tensor(seps, dtype=dt)
            out, y = call(lambda: np.asarray(pb.OPS.SpectralCoherence(t, sp).detach()))
            out2, y2 = call(lambda: np.asarray(pb.OPS.SpectralCoherence(t, -sp).detach()))
            ok = out == "ok" and out2 == "ok" and y.shape == (3, len(seps), len(k1))
            for i in range(len(seps)):
                for j in range(len(k1)):
                    if i < len(seps) - 6 and i % 13:
                        continue
                    if h["n"] == 5 and (i + j) % 3:
                        continue
                    ev.append(dict(a="coh", h=h, out=out if out != "ok" else out2, m=m, k1=r(t[j]), r=r(sp[i]), lo=h["lo"], hi=h["hi"], n=h["n"], L0=r(L0), shape=ok, c=rs(y[:, i, j]) if ok else [], cneg=rs(y2[:, i, j]) if ok else [],
                                   tol="1e-7" if dt == torch.float64 else "3e-3"))
        finally:
            torch.set_default_dtype(torch.float32)
    ev += coh_cals(c, hs[:c.n(25, 250)], rng)
    torch.set_rng_state(st)
    c.trace("SpectraTrace", ev, ntraces=len(ev), what="coherence")


def repeats(h):
    """Patterns of a history: how the points of an evaluation resemble those of the previous evaluation of the same kind, and what happened between."""
    out, last, since, mine = set(), {}, {}, {}
    for o in h["ops"]:
        op = o["op"]
        for k in since:
            since[k].add(op)
        if "s" in o:
            s = o["s"]
            if op in last:
                t = last[op]
                rel = ("same" if s == t else "alike" if len(s) == len(t) > 1 and s[0] == t[0] else "permuted" if sorted(s) == sorted(t) else "length" if len(s) == len(t) else "longer" if len(s) > len(t) else "shorter")
                mid = since[op] - {op}
                out.add((op, rel, o["how"]))
                if o["mine"] and mine[op] and len(s) == len(t):
                    out.add((op, "same" if s == t else "refilled", h["arch"], o["how"]))
                if len(mid) <= 1:
                    out.add((op, rel, tuple(mid)))
                    out.add((op, rel, tuple(mid), h["arch"] in (1, 2, 3), o["how"]))
                if not mid:
                    out.add((op, rel, h["arch"]))
            last[op], since[op], mine[op] = s, set(), o["mine"]
    return out


SIM19 = """SPECIFICATION SSpec
CONSTANTS Pts = {1,2} MaxV = 1 MaxRes = 2 Depth = %d Archs = {1,2,3,4,5,6,7} Kinds = {"plot","save","calib","cohcal","set","tape","read"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def C19(c):
    c.model("Evals", "SPECIFICATION Spec\nCONSTANTS Pts = {1,2} MaxV = 1 MaxRes = %d\nINVARIANT ValueOfPoint\nPROPERTIES OnlyChangeChanges ResultsStay\nCHECK_DEADLOCK FALSE\n" % c.n(2, 3))
    depth = c.n(10, 14)
    hs = c.scenarios("EvalsSim", SIM19 % depth, num=c.n(1500, 8000), depth=2 * depth + 2)
    hs = cover.choose(c, hs, repeats, c.n(44, 500))
    from . import calib
    import matplotlib.pyplot as plt
    ev, st, ntr = [], torch.get_rng_state(), 0
    for q, h in enumerate(c.timely(hs)):
        rng = np.random.RandomState(77 * c.seed + q)
        dt = DT["f32" if q % 4 == 3 else "f64"]
        torch.set_default_dtype(dt)
        try:
            phys = (float(np.exp(rng.uniform(-1, 2))), float(rng.uniform(.4, 4.)), float(rng.uniform(.3, 5.)))
            arch = h["arch"]
            torch.manual_seed(q)
            out, pb = call(pr.new, arch, phys, c.scratch)
            ev.append(dict(a="reset"))
            ntr += 1
            if out != "ok":
                ev.append(dict(a="new", out=out, p0="", p1="", inputs=True, earlier=True))
                continue
            if arch in (1, 2, 3):
                with torch.no_grad():
                    for x in pb.OPS.tauNet.parameters():
                        x.add_(torch.tensor(.3 * rng.rand(*x.shape), dtype=dt))
            par = lambda: vd_(pb)
            ev.append(dict(a="new", out="ok", arch=arch, phys=rs(phys), p0=par(), p1=par(), inputs=True, earlier=True))
            k1s = np.exp(rng.uniform(-3, 3, 6)) / phys[0]
            kvs = wavevectors(6, phys[0], rng)
            seps = np.concatenate([[0.], rng.uniform(.05, 4., 5)]) * phys[0]
            held = []      # (object, digest when it was handed out)
            tol = "1e-8" if dt == torch.float64 else "2e-3"

            def twin():
                torch.manual_seed(1)
                t = pr.new(arch, phys, c.scratch)
                t.parameters = pb.parameters.copy()
                return t

            bufs = {}      # the caller's own arrays, by use and length

            def given(use, x):
                if not o["mine"]:
                    return torch.tensor(x, dtype=dt)
                b = bufs.setdefault((use, len(x)), torch.zeros(x.shape, dtype=dt))
                return b.copy_(torch.tensor(x, dtype=dt))

            for o in h["ops"]:
                op = o["op"]
                p0 = par()
                ins, res, e = [], None, dict(a="other", op=op, p0=p0)
                if op == "ops":
                    t = given("k1", k1s[np.array(o["s"]) - 1])
                    ins = [(t, t.clone())]
                    f = dict(eval=lambda m, x: m.eval(x), call=lambda m, x: m.OPS(x).detach(), callgrad=lambda m, x: m.OPS(x))[o["how"]]
                    out, res = call(f, pb, t)
                    e.update(a="eval", kind="ops", how=o["how"], pts=["k%d" % i for i in o["s"]])
                    split = lambda y, n: np.asarray(y.detach() if torch.is_tensor(y) else y)[:, n]
                    one = lambda n: call(lambda: twin().eval(t[n:n + 1].clone()))
                elif op == "tau":
                    k = kvs[np.array(o["s"]) - 1]
                    t = given("k", k)
                    if o["how"] == "block":
                        t = t.reshape(1, -1, 1, 3)
                    ins = [(t, t.clone())]
                    out, res = call(lambda: pb.OPS.EddyLifetime(t))
                    e.update(a="eval", kind="tau", how=o["how"], pts=["w%d" % i for i in o["s"]])
                    split = lambda y, n: np.asarray(y.detach()).reshape(-1)[n:n + 1]
                    one = lambda n: call(lambda: twin().OPS.EddyLifetime(torch.tensor(k[n:n + 1], dtype=dt)))
                elif op == "coh":
                    t = given("k1", k1s[np.array(o["s"]) - 1])
                    sp = given("r", seps[np.array(o["r"]) - 1])
                    ins = [(t, t.clone()), (sp, sp.clone())]
                    out, res = call(lambda: pb.OPS.SpectralCoherence(t, sp))
                    nk, nr = len(o["s"]), len(o["r"])
                    e.update(a="eval", kind="coh", pts=["k%d r%d" % (o["s"][n % nk], o["r"][n // nk]) for n in range(nk * nr)])
                    split = lambda y, n: np.asarray(y.detach())[:, n // nk, n % nk]
                    one = lambda n: call(lambda: twin().OPS.SpectralCoherence(t[n % nk:n % nk + 1].clone(), sp[n // nk:n // nk + 1].clone()))
                elif op == "plot":
                    dat = calib.custom(4, rng, dt)
                    ins = [(dat["k1"], dat["k1"].clone()), (dat["ops"], dat["ops"].clone())]
                    out, _ = call(lambda: pb.plot(OPSData=([(float(x), 40.) for x in dat["k1"]], dat["ops"]), plot_tau=bool(q % 2)))
                    plt.close("all")
                elif op == "save":
                    out, _ = call(lambda: pb.save_model(c.scratch))
                elif op == "tape":
                    # gradients computed and thrown away
                    out, _ = call(lambda: pb.OPS(torch.tensor(k1s, dtype=dt)).sum().backward())
                    pb.OPS.zero_grad()
                elif op == "read":
                    def readit():
                        v = pb.parameters
                        v += 1.
                    out, _ = call(readit)
                elif op == "set":
                    e["a"] = "set"
                    def setit():
                        pb.parameters = pb.parameters * (1 + .05 * rng.rand())
                    out, _ = call(setit)
                else:
                    e["a"] = "calib"
                    dat = calib.custom(4, rng, dt)
                    ins = [(dat["k1"], dat["k1"].clone()), (dat["ops"], dat["ops"].clone())]
                    kw = dict(optimizer_class=torch.optim.Adam) if arch != 4 else {}
                    if op == "cohcal":
                        path = os.path.join(c.scratch, "c19.dat")
                        coh_file(path, [.5, 1., 2., 3.], [.1, 1.], rng.rand(3, 4, 2).tolist())
                        kw["coherence_data_file"] = path
                    if op == "calib" and q % 2:
                        kw.pop("optimizer_class", None)
                    out, _ = call(lambda: pb.calibrate(dat, **kw))
                e.update(out=out, p1=par(), inputs=all(torch.equal(a, b) for a, b in ins), earlier=all(dig(a) == d for a, d in held))
                if e["a"] == "eval" and out == "ok":
                    try:
                        vals = [split(res, n) for n in range(len(e["pts"]))]
                    except (IndexError, ValueError):
                        vals = []
                    pick = range(len(e["pts"]))
                    if len(e["pts"]) > 4:     # a sample of the points
                        pick = sorted(rng.choice(len(e["pts"]), 4, replace=False))
                    refs = [one(n) for n in pick]
                    if any(x[0] != "ok" for x in refs):
                        e["out"] = [x[0] for x in refs if x[0] != "ok"][0]
                    e["pts"] = [e["pts"][n] for n in pick]
                    e["vals"] = [rs(vals[n]) for n in pick] if vals else []
                    e["atol"] = [r(float(tol) * np.abs(vals[n]).max()) for n in pick] if vals else []
                    e["ref"] = [rs(x[1].detach() if torch.is_tensor(x[1]) else x[1]) if x[0] == "ok" else [] for x in refs]
                    e["tol"] = tol
                    held.append((res, dig(res)))
                ev.append(e)
        finally:
            torch.set_default_dtype(torch.float32)
    torch.set_rng_state(st)
    c.trace("EvalsTrace", ev, ntraces=ntr, what="histories of evaluations")


def dig(y):
    return digest(y.detach().numpy() if torch.is_tensor(y) else y)


def vd_(pb):
    return pr.vd(pb.parameters)
