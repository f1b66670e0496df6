"""Construction (C27)."""
import copy, os
from pathlib import Path
from .api import *
from .fieldvals import PICK, uniq
from vlib import cover
from . import fieldgen as fg, problem as pr, calib
from drdmannturb.nn_modules import TauNet
from drdmannturb.fluctuation_generation.covariance_kernels import VonKarmanCovariance, MannCovariance
from drdmannturb.fluctuation_generation.nn_covariance import NNCovariance
from drdmannturb.fluctuation_generation.gaussian_random_fields import GaussianRandomField, VectorGaussianRandomField
from drdmannturb.spectra_fitting import OnePointSpectra
from drdmannturb.parameters import DomainParameters

DT = dict(f32=torch.float32, f64=torch.float64)


def ev_(kind, **k):
    return dict(a="build", a_=kind, **k)


def nets(c, ev):
    # activations vary last, so that one simulated prefix is printed with each of them
    hs = uniq(c.scenarios("NetSim", PICK, num=3 * c.n(170, 1500), depth=20))
    ok = [h for h in hs if h["ok"]]
    rng = np.random.RandomState(c.seed)
    hs = cover.order(hs, rng, c=c)
    for h in c.timely((ok[:c.n(150, 1500)] + [h for h in hs if not h["ok"]][:c.n(300, 3000)])):
        mk = lambda d: dict(int=lambda x: x, float=float, str=str, none=lambda x: None, list=list)[d[0]](d[1])
        n, s = mk(h["n"]), mk(h["s"])
        k = h["a"][1]
        act = dict(none=lambda: None, module=torch.nn.Tanh, list=lambda: [torch.nn.ReLU() for _ in range(k)], bad=lambda: [torch.nn.ReLU() for _ in range(k - 1)] + [torch.relu], tuple=lambda: (torch.nn.ReLU(),) * k,
                   str=lambda: "relu")
        act["class"] = lambda: torch.nn.ReLU
        act = act[h["a"][0]]()
        s0, act0 = copy.copy(s), copy.copy(act) if isinstance(act, list) else act
        build = (lambda: TauNet(n, s, act, h["nu"])) if h["how"] == "positional" else (lambda: TauNet(learn_nu=h["nu"], activations=act, hidden_layer_sizes=s, n_layers=n))
        out, net = call(build)
        e = ev_("net", n=h["n"], s=h["s"], acts=h["a"], nu=h["nu"])
        if out == "ok":
            out2, net2 = call(build)
            ps = list(net.parameters())
            x = torch.tensor(rng.randn(2, 3), dtype=torch.get_default_dtype())
            before = [p.detach().clone() for p in net2.parameters()]
            with torch.no_grad():
                for p in ps:
                    p.fill_(.25)
            ru, y = call(lambda: net(x))
            e.update(weights=[list(p.shape) for p in ps if p.dim() == 2], count=sum(p.numel() for p in ps), runs=ru == "ok" and tuple(y.shape) == (2,) and bool(torch.isfinite(y).all()),
                     apart=all(torch.equal(a, b) for a, b in zip(before, net2.parameters())))
        e.update(out=out, intact=s == s0 and (act is act0 if not isinstance(act, (list, tuple)) else len(act) == len(act0) and all(a is b for a, b in zip(act, act0))))
        ev.append(e)


def probs(c, ev):
    hs = uniq(c.scenarios("ProbSim", PICK, num=3 * c.n(60, 500), depth=20))
    rng = np.random.RandomState(c.seed)
    hs = cover.order(hs, rng, c=c)
    good = [h for h in hs if min(h["phys"]) > 0 and h["nc"] in (3, 4, 6)]
    for q, h in enumerate(c.timely(good[:c.n(70, 800)] + [h for h in hs if h not in good][:c.n(120, 1500)])):
        torch.set_default_dtype(DT[h["dtype"]])
        try:
            mag = rng.uniform(.3, 5., 3)
            if q % 7 == 0:
                mag = np.array([2, 3, 1])
            ph = [float(s * m) if q % 7 else int(s * m) for s, m in zip(h["phys"], mag)]
            nn = D.NNParameters(nlayers=h["n"], hidden_layer_size=h["hid"], activations=[torch.nn.ReLU() for _ in range(h["n"])])
            noise = h["noise"].strip()
            noisy = dict(init_with_noise=True, noise_magnitude=float(noise)) if noise != "no" else {}
            prob = D.ProblemParameters(eddy_lifetime=getattr(pr.ET, h["et"]), learn_nu=h["nu"], use_learnable_spectrum=h["sp"], num_components=h["nc"], nepochs=1, wolfe_iter_count=2, **noisy)
            loss, phys, integ = D.LossParameters(alpha_pen2=.2, beta_reg=float(h["reg"])), D.PhysicalParameters(L=ph[0], Gamma=ph[1], sigma=ph[2]), pr.INTEG()
            before = pr.cfg_id(nn, prob, loss, phys) + repr(vars(integ))
            build = lambda: D.CalibrationProblem(nn_params=nn, prob_params=prob, loss_params=loss, phys_params=phys, integration_params=integ, output_directory=c.scratch, logging_directory=c.scratch + "/tb")
            torch.manual_seed(q)
            out, pb = call(build)
            e = ev_("prob", noise=noise, given=rs(ph), tol="1e-5" if h["dtype"] == "f32" else "1e-12", et=h["et"], n=h["n"], hid=h["hid"], nu=h["nu"], sp=h["sp"], phys=h["phys"], nc=h["nc"], out=out)
            if out == "ok":
                v = np.asarray(pb.parameters, dtype=float)
                e.update(scales=rs(v[:3]), shift="0", rms="nan", down="nan")
                if noisy:      # the same problem without noise
                    plain = D.ProblemParameters(**{k: x for k, x in vars(prob).items() if k not in noisy})
                    torch.manual_seed(q)
                    po, p0 = call(lambda: D.CalibrationProblem(nn_params=nn, prob_params=plain, loss_params=loss, phys_params=phys, integration_params=integ, output_directory=c.scratch, logging_directory=c.scratch + "/tb"))
                    if po == "ok":
                        by = (v - np.asarray(p0.parameters, dtype=float))[3:]
                        e.update(shift=r(np.abs(v - np.asarray(p0.parameters, dtype=float)).max()), rms=r(np.sqrt((by ** 2).mean()) if len(by) else 0.), down=r((by < 0).mean() if len(by) else .5))
                    else:
                        e["shift"] = "nan"
                _, pb2 = call(build)
                v2 = np.array(pb2.parameters)
                k1 = torch.logspace(-1, 1, 4)
                y2 = np.array(pb2.eval(k1))
                def use():
                    pb.parameters = pb.parameters * 1.01 + .01
                    y = pb.eval(k1)
                    dat = calib.custom(4, rng, DT[h["dtype"]])
                    if h["et"] != "MANN" or q % 2:
                        pb.calibrate(dat, optimizer_class=torch.optim.Adam)
                    return y
                early, _ = call(pb.print_calibrated_params)
                tr, nt = call(pb.num_trainable_params)
                no, nv = call(pb.eval_trainable_norm)
                want = np.linalg.norm(np.asarray(pb.parameters, dtype=float)[3 + 2 * h["sp"]:])
                e.update(len=len(pb.parameters), trainable=int(nt) if tr == "ok" else -1 if tr == "ValueError" else -2, early=early == "ValueError",
                         norm=bool(no == "ok" and abs(float(nv) - want) <= 1e-4 * want) if h["et"] == "TAUNET" else no == "ValueError")
                ru, y = call(use)
                e.update(runs=ru == "ok" and y.shape == (6, 4) and bool(np.isfinite(y).all()), apart=bool(np.array_equal(v2, pb2.parameters)) and bool(np.array_equal(y2, pb2.eval(k1))))
            e["intact"] = pr.cfg_id(nn, prob, loss, phys) + repr(vars(integ)) == before
            ev.append(e)
        finally:
            torch.set_default_dtype(torch.float32)


def gens(c, ev):
    hs = uniq(c.scenarios("GenSim", PICK, num=3 * c.n(220, 2000), depth=20))
    rng = np.random.RandomState(c.seed)
    hs = cover.order(hs, rng, c=c)
    good = lambda h: h["m"] in ("DRD", "VK", "Mann") and h["nd"] == 3 and h["nl"] == 3 and (h["path"] in ("file", "pathobj") if h["m"] == "DRD" else not h["missing"])
    half = [h for h in hs if h["m"] in ("DRD", "VK", "Mann") and not good(h)]
    drd = fg.drd_file(c.scratch)
    for q, h in enumerate(c.timely([h for h in hs if good(h)][:c.n(60, 600)] + half[:c.n(90, 900)] + [h for h in hs if h["m"] not in ("DRD", "VK", "Mann")][:c.n(30, 200)])):
        lv = np.array([int(x) for x in rng.randint(1, 4, h["nl"])])
        dims = np.array([float(x) for x in rng.choice([40., 60., 90.], h["nd"])])
        if h["ints"]:
            dims = dims.astype(int)
        kw = dict(length_scale=float(rng.uniform(3., 9.)), time_scale=float(h["ts"]), energy_spectrum_scale=float(rng.uniform(.1, 3.)))
        for x in h["missing"]:
            if q % 2:
                kw[x + dict(length="_scale", time="_scale", energy="_spectrum_scale")[x]] = None
            else:
                kw.pop(x + dict(length="_scale", time="_scale", energy="_spectrum_scale")[x])
        path = dict(file=drd, pathobj=Path(drd), none=None, absent=os.path.join(c.scratch, "no", "such.pkl"))[h["path"]]
        lf = dict(fg.LF1) if h["lf"] else None
        args = (dims.copy(), lv.copy(), dict(lf) if lf else None)
        build = lambda: FFG(.5, 20., dims, lv, h["m"], path_to_parameters=path, seed=3, blend_num=h["blend"], config_2d_model=lf, **kw)
        out, g = call(build)
        e = ev_("gen", m=h["m"], missing=h["missing"], path="file" if h["path"] == "pathobj" else h["path"], nd=h["nd"], nl=h["nl"], out=out)
        if out == "ok":
            _, g2 = call(build)
            t = g.total_fluctuation
            e["empty"] = t is None or t.shape[0] == 0
            o, f = call(lambda: g.generate(1, 10., 6., .1, "LOG"))
            e.update(lv=[int(x) for x in lv], block=list(f.shape[:3]) if o == "ok" else [])
            t2 = g2.total_fluctuation
            ap = t2 is None or t2.shape[0] == 0
            o, f2 = call(lambda: g2.generate(1, 10., 6., .1, "LOG"))
            e["apart"] = ap and o == "ok" and bool(np.allclose(f, f2, rtol=1e-4, atol=1e-4))
        e["intact"] = bool(np.array_equal(dims, args[0]) and np.array_equal(lv, args[1]) and lf == args[2])
        ev.append(e)


def rest(c, ev):
    _, pb = call(lambda: pr.new(1, pr.PHYS[0], c.scratch))
    for nd in (3, 2, 1, 4, 0, -3, 30):
        for w in range(3):
            mk = [lambda: VonKarmanCovariance(nd, 5., 1.), lambda: MannCovariance(nd, 5., 1., Gamma=2.), lambda: NNCovariance(nd, 5., 1., 2., pb.OPS, 20.)][w]
            out, _ = call(mk)
            ev.append(ev_("kernel", which=w, ndim=nd, out=out, intact=True))
    for nd in (1, 2, 3, 4):
        for nl in (0, 2, 3, 4):
            for f in (list, tuple, np.array):
                d, l = f([10., 20., 30., 40.][:nd]), f([3, 2, 5, 4][:nl])
                d0, l0 = copy.copy(d), copy.copy(l)
                out, p = call(DomainParameters, d, l)
                e = ev_("domain", nd=nd, nl=nl, out=out, intact=list(d) == list(d0) and list(l) == list(l0))
                if out == "ok":
                    e["same"] = [float(x) for x in p.grid_dimensions] == [10., 20., 30.] and [int(x) for x in p.grid_levels] == [3, 2, 5] and isinstance(p.grid_dimensions, np.ndarray) and isinstance(p.grid_levels, np.ndarray)
                ev.append(e)
    cov = VonKarmanCovariance(3, 5., 1.)
    for nd in (2, 3, 4):
        for nl in (2, 3, 4):
            for cls, meth in ((VectorGaussianRandomField, "vf_fftw"), (GaussianRandomField, "vf_fftw")):
                d, l = np.array([10., 20., 30., 9.][:nd]), np.array([2, 1, 2, 1][:nl])
                out, _ = call(lambda: cls(ndim=3, grid_level=l, grid_dimensions=d, sampling_method=meth, grid_shape=[5, 3, 5], Covariance=cov))
                ev.append(ev_("other", what="%s %d %d" % (cls.__name__, nd, nl), ok=nd == 3 and nl == 3, out=out, intact=len(d) == nd and len(l) == nl))
    for m, ok in (("vf_fftw", True), ("nope", False), ("", False), ("FFT", False), ("VF_FFTW", False)):
        out, _ = call(lambda: VectorGaussianRandomField(ndim=3, grid_level=np.array([2, 1, 2]), grid_dimensions=np.array([9., 9., 9.]), sampling_method=m, grid_shape=[5, 3, 5], Covariance=cov))
        ev.append(ev_("other", what="method " + m, ok=ok, out=out, intact=True))
    for shape, ok in ((np.array([3, 3, 3]), False), ([4, 4, 4], False)):
        out, _ = call(lambda: GaussianRandomField(cov, 3, grid_shape=shape, sampling_method="vf_fftw"))
        ev.append(ev_("other", what="scalar level", ok=ok, out=out, intact=True))
    for et in pr.ET:
        for nn in (None, D.NNParameters(nlayers=1, hidden_layer_size=2)):
            out, _ = call(lambda: OnePointSpectra(et, D.PhysicalParameters(L=1., Gamma=1., sigma=1.), nn_parameters=nn))
            if et.name in ("TAUNET", "MANN", "MANN_APPROX", "CONST", "TWOTHIRD"):
                ev.append(ev_("other", what="spectra " + et.name, ok=et.name != "TAUNET" or nn is not None, out=out, intact=True))
    defaults(ev)
    # every exported name is there
    out, _ = call(lambda: [getattr(D, x) for x in D.__all__])
    ev.append(ev_("other", what="names", ok=True, out=out, intact=True))


def word(v):
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, list):
        return "[]" if not v else "list"
    return v.name if hasattr(v, "name") else r(v) if isinstance(v, (int, float)) else "other"


def defaults(ev):
    """The parameter classes built with nothing said, twice; then with everything said."""
    from drdmannturb.parameters import LowFreqParameters, IntegrationParameters
    for cls in (D.ProblemParameters, D.PhysicalParameters, D.LossParameters, D.NNParameters, LowFreqParameters, IntegrationParameters):
        must = dict(L=.6, Gamma=3.9, sigma=3.2) if cls is D.PhysicalParameters else {}
        out, a = call(lambda: cls(**must))
        e = ev_("default", cls=cls.__name__, out=out, intact=True)
        if out == "ok":
            e["vals"] = [[k, word(v)] for k, v in vars(a).items() if not torch.is_tensor(v)]
            for v in vars(a).values():
                if isinstance(v, list):
                    v.append(7)
            _, b = call(lambda: cls(**must))
            given = {k: (not v if isinstance(v, bool) else v + 1 if isinstance(v, (int, float)) else [1] if isinstance(v, list) else v) for k, v in vars(b).items()}
            _, g = call(lambda: cls(**given))
            e.update(apart=not any(v for v in vars(b).values() if isinstance(v, list)), takes=all(getattr(g, k, None) is v for k, v in given.items()))
            if "domain" in vars(a):
                k = a.domain
                e["takes"] = e["takes"] and tuple(k.shape) == (20,) and bool(np.allclose(np.log10(k.numpy()), np.linspace(-1, 2, 20), atol=1e-5))
        ev.append(e)


def C27(c):
    c.model("ConstructMC", "SPECIFICATION Spec\nCONSTANTS MaxN = 3 MaxH = %d\nINVARIANTS LengthRules Composes OneSize\n" % c.n(3, 6))
    ev, st = [], torch.get_rng_state()
    torch.manual_seed(c.seed)
    nets(c, ev)
    probs(c, ev)
    gens(c, ev)
    rest(c, ev)
    torch.set_rng_state(st)
    c.trace("ConstructTrace", ev, ntraces=len(ev), what="constructions")
