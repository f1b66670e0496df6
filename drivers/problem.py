"""Calibration problems: parameter vectors (C13) and saved models (C14)."""
import os, pickle
from pathlib import Path
from .api import *
from .fieldvals import PICK, uniq
from vlib import cover
from drdmannturb.spectra_fitting.data_generator import generate_kaimal_spectra

ET = D.EddyLifetimeType
# architectures: eddy lifetime, layers, hidden, learn_nu, learnable spectrum
ARCHS = {1: ("TAUNET", 2, 3, False, False), 2: ("TAUNET", 1, 1, True, False), 3: ("TAUNET", 1, 5, False, True), 4: ("MANN", 1, 1, False, False),
         5: ("MANN_APPROX", 2, 2, False, False), 6: ("CONST", 2, 2, False, True), 7: ("TWOTHIRD", 2, 2, False, False)}


def nparam(a):
    et, nl, nh, nu, sp = ARCHS[a]
    return 3 + 2 * sp + ((3 * nh + (nl - 1) * nh * nh + 3 * nh + nu) if et == "TAUNET" else 0)


INTEG = lambda: D.IntegrationParameters(ops_log_min=-2., ops_log_max=2., ops_num_points=7, coh_log_min=-2., coh_log_max=2., coh_num_points=7)
PHYS = [(.59, 3.9, 3.2), (1., 1., 1.), (35., .02, 140.), (.004, 7.5, 1e-3), (2, 3, 5), (120., 2.2, .6)]


def new(a, phys, scratch, **kw):
    et, nl, nh, nu, sp = ARCHS[a]
    L, G, S = phys
    return D.CalibrationProblem(nn_params=D.NNParameters(nlayers=nl, hidden_layer_size=nh, activations=[torch.nn.ReLU() for _ in range(nl)]),
                                prob_params=D.ProblemParameters(eddy_lifetime=getattr(ET, et), nepochs=1, wolfe_iter_count=3, learn_nu=nu, use_learnable_spectrum=sp, num_components=3, **kw),
                                loss_params=D.LossParameters(alpha_pen2=.1, beta_reg=1e-4),
                                phys_params=D.PhysicalParameters(L=L, Gamma=G, sigma=S, zref=40., ustar=.4, domain=torch.logspace(-1, 1, 5)), integration_params=INTEG(),
                                logging_directory=scratch + "/tb", output_directory=Path(scratch) / "default")


def gen(k1, zref=40., ustar=.4):
    with quiet():
        return generate_kaimal_spectra(k1, zref, ustar)


def vd(v):
    """Identity of the contents of a vector."""
    v = v.detach().numpy() if torch.is_tensor(v) else np.asarray(v)
    return digest(np.asarray(v, dtype=np.float64))


def cfg_id(nn, prob, loss, phys):
    def f(o):
        out = []
        for k, v in sorted(vars(o).items()):
            if torch.is_tensor(v):
                v = (str(v.dtype), v.tolist())
            if k == "activations":
                v = [type(x).__name__ for x in v]
            out.append((k, str(v)))
        return (type(o).__name__, out)
    import hashlib
    return hashlib.sha1(repr([f(o) for o in (nn, prob, loss, phys)]).encode()).hexdigest()[:12]


KPTS = [[.3, -.2, .5], [1.1, 0., -.4], [-2., .7, .01], [9., 8., -7.], [.01, .02, .03]]


def fingerprint(pb):
    k1 = torch.tensor([.02, .5, 7.], dtype=torch.get_default_dtype())
    k = torch.tensor(KPTS, dtype=torch.get_default_dtype())
    with torch.no_grad():
        return rs(np.concatenate([np.asarray(pb.eval(k1)).ravel(), np.asarray(pb.OPS.EddyLifetime(k).detach()).ravel()]))


def build_generator(path, q):
    """A wind-field generator of the saved model, on a grid that suits its scales (which are read only to size it)."""
    with open(path, "rb") as f:
        v = np.asarray(pickle.load(f)[4], dtype=float)
    us, z = [(.4, 40.), (1.3, 7.), (.08, 180.)][q % 3]
    L, G = np.exp(v[0]) * z, np.exp(v[1])
    return FFG(us, z, np.array([5 * (1 + G), 4., 3.]) * L, np.array([1, 1, 1]), "DRD", path_to_parameters=path if q % 2 else Path(path), seed=1, blend_num=0), us, z


def kernel(i, g, us, z):
    k = np.array(KPTS) / z
    K = np.asarray(g.Covariance.precompute_Spectrum([k[:, j].copy() for j in range(3)]))
    return dict(id="g%d" % i, us=r(us), zref=r(z), k=rows(k), g=[rows(K[:, :, n, n, n].imag) for n in range(len(k))])


class World:
    def __init__(self, scratch):
        self.scratch = scratch
        self.p, self.h, self.arch, self.g = {}, {}, {}, {}
        self.dirs = {}

    def dir(self, d):
        if d not in self.dirs:
            import tempfile
            self.dirs[d] = tempfile.mkdtemp(prefix="dir", dir=self.scratch) + ("/sub dir/x" if d == 2 else "")
        return self.dirs[d]

    def fname(self, d, et):
        return os.path.join(self.dir(d), "EddyLifetimeType.%s.pkl" % et)

    def obs(self):
        P, F = [], []
        for i, pb in sorted(self.p.items()):
            v = np.asarray(pb.parameters)
            P.append(dict(id="p%d" % i, arch=self.arch[i], cfg=cfg_id(pb.nn_params, pb.prob_params, pb.loss_params, pb.phys_params), val=vd(v), len=len(v), head=rs(v[:3]), fp=fingerprint(pb)))
        H = [dict(id="h%d" % i, len=len(v), val=vd(v)) for i, v in sorted(self.h.items())]
        for d in sorted(self.dirs):
            if os.path.isdir(self.dir(d)):
                for f in sorted(os.listdir(self.dir(d))):
                    et = f.replace("EddyLifetimeType.", "").replace(".pkl", "")
                    F.append(dict(id="d%d:%s" % (d, et), **self.content(os.path.join(self.dir(d), f))))
        return dict(p=P, h=H, f=F, g=[kernel(i, *x) for i, x in sorted(self.g.items())])

    def content(self, path):
        with open(path, "rb") as f:
            c = pickle.load(f)
        ok = isinstance(c, (list, tuple)) and [type(x).__name__ for x in c[:4]] == ["NNParameters", "ProblemParameters", "LossParameters", "PhysicalParameters"] and len(c) == 5
        if not ok:
            return dict(layout=False, cfg="", val="", arch=0)
        a = [k for k in ARCHS if ARCHS[k] == (c[1].eddy_lifetime.name, c[0].nlayers, c[0].hidden_layer_size, c[1].learn_nu, c[1].use_learnable_spectrum)]
        return dict(layout=True, cfg=cfg_id(*c[:4]), val=vd(c[4]), arch=a[0] if a else 0)


def scenario(w, h, q, dt, dat):
    """Replay one behaviour; yields events."""
    ev = []
    rng = np.random.RandomState(q)
    for n, o in enumerate(h):
        e = dict(a=o["op"], tol="1e-5" if dt == torch.float32 else "1e-10", eps="1e-6" if dt == torch.float32 else "1e-13")
        for k in ("p", "h"):
            if k in o:
                e[k] = "%s%d" % (k, o[k])
        op = o["op"]
        if op == "new":
            ph = PHYS[(q + 5 * n) % len(PHYS)]
            out, pb = call(new, o["a"], ph, w.scratch)
            if out == "ok":
                # weights away from their tiny initial values, so that they matter
                w.p[o["p"]], w.arch[o["p"]] = pb, o["a"]
                if ARCHS[o["a"]][0] == "TAUNET":
                    with torch.no_grad():
                        for x in pb.OPS.tauNet.parameters():
                            x += .4 * torch.tensor(rng.randn(*x.shape), dtype=x.dtype) if x.dim() > 1 else 0.
            e.update(arch=o["a"], len=nparam(o["a"]), phys=rs(ph))
        elif op == "read":
            def rd():
                v = w.p[o["p"]].parameters
                k = o["k"]
                return v if k == "np" else np.asarray(v, dtype=np.float64) if k == "np64" else torch.tensor(v) if k == "torch" else torch.tensor(v, dtype=torch.float64, requires_grad=True) if k == "grad" else [float(x) for x in v] if k == "list" else np.concatenate([[0.], v])[1:]
            out, v = call(rd)
            if out == "ok":
                w.h[o["h"]] = v
            e.update(len=nparam(w.arch[o["p"]]))
        elif op == "write":
            pb, v = w.p[o["p"]], w.h[o["h"]]
            out, _ = call(setattr, pb, "parameters", v)
            e.update(len=nparam(w.arch[o["p"]]))
        elif op == "badlen":
            pb = w.p[o["p"]]
            m = nparam(w.arch[o["p"]])
            v = np.linspace(-1, 1, {"short": m - 1, "long": m + 1, "empty": 0, "one": 1, "scales": 3 if m > 3 else 2, "most": m - 2, "twice": 2 * m, "head": 5 if m > 5 else 4}[o["n"]])
            out, _ = call(setattr, pb, "parameters", v if n % 2 else torch.tensor(v))
        elif op == "mutate":
            v = w.h[o["h"]]
            fac = float(np.float32(.75 + .25 * rng.rand()))
            if torch.is_tensor(v):
                with torch.no_grad():
                    v.copy_((v.double() * fac).float())
            elif isinstance(v, list):
                for i in range(len(v)):
                    v[i] = float(np.float32(v[i] * fac))
            else:
                v[:] = (np.asarray(v, dtype=float) * fac).astype(np.float32)
            out = "ok"
        elif op == "calib":
            out, _ = call(w.p[o["p"]].calibrate, dat)
        elif op == "plot":
            import matplotlib.pyplot as plt
            pb = w.p[o["p"]]
            out, _ = call(pb.plot) if hasattr(pb, "calibrated_params") else call(pb.eval, dat["k1"])
            plt.close("all")
        elif op == "edit":
            pb = w.p[o["p"]]
            pb.prob_params.nepochs = 1 + int(rng.randint(1, 3))
            pb.loss_params.alpha_pen1 = float(rng.rand())
            pb.phys_params.Uref = float(rng.rand())
            out = "ok"
        elif op == "save":
            pb = w.p[o["p"]]
            d = w.dir(o["d"])
            e["f"] = "d%d:%s" % (o["d"], ARCHS[w.arch[o["p"]]][0])
            if o["k"] == "str":
                out, _ = call(pb.save_model, d)
            else:
                os.makedirs(d, exist_ok=True)
                if o["k"] == "default":
                    pb.output_directory = Path(d)
                    out, _ = call(pb.save_model)
                else:
                    out, _ = call(pb.save_model, Path(d))
        elif op == "badsave":
            pb = w.p[o["p"]]
            if o["b"] == "absent":
                t = Path(w.scratch) / "nowhere"
            else:
                t = Path(w.scratch) / "plainfile"
                t.write_text("x")
            out, _ = call(pb.save_model, t)
            if o["b"] == "absent" and t.exists():
                out = "Created"
            if o["b"] != "absent" and t.read_text() != "x":
                out = "Overwritten"
        elif op == "load":
            e["f"] = "d%d:%s" % (o["d"], o["et"])
            def ld():
                with open(w.fname(o["d"], o["et"]), "rb") as f:
                    c = D.CPU_Unpickler(f).load() if q % 2 else pickle.load(f)
                pb = D.CalibrationProblem(nn_params=c[0], prob_params=c[1], loss_params=c[2], phys_params=c[3], integration_params=INTEG(), logging_directory=w.scratch + "/tb")
                pb.parameters = c[4]
                return pb, w.content(w.fname(o["d"], o["et"]))["arch"]
            out, v = call(ld)
            if out == "ok":
                w.p[o["p"]], w.arch[o["p"]] = v
        elif op == "gen":
            e["f"], e["g"] = "d%d:%s" % (o["d"], o["et"]), "g%d" % o["g"]
            out, v = call(build_generator, w.fname(o["d"], o["et"]), q + n)
            if out == "ok":
                w.g[o["g"]] = v
        e["out"] = out
        with quiet():
            e["obs"] = w.obs()
        ev.append(e)
        if out not in ("ok", "ValueError"):
            break
    return ev


SIM = """SPECIFICATION SSpec
CONSTANTS
 Probs = {%s}
 Hands = {1,2}
 Dirs = {%s}
 Gens = {1,2}
 Archs = {%s}
 LenOf <- SLen
 EtOf <- SEt
 Ops = {%s}
 Depth = %d
 Kinds = {"np","np64","torch","grad","list"}
 BadDirs = {"absent","file"}
INVARIANT Emit
"""
MC = """SPECIFICATION Spec
CONSTANTS
 Probs = {1,2}
 Hands = {1}
 Dirs = {1}
 Gens = {1}
 Archs = {1,2,3}
 LenOf <- MCLen
 EtOf <- MCEt
CONSTRAINT Bound
INVARIANTS TypeOK Determined
PROPERTIES OneOwner LoadIsSaved BuildIsSaved
"""


def campaign(c, ops, num, depth):
    c.model("ProblemMC", MC)
    q, ev = 0, []
    st = torch.get_rng_state()
    groups = [(g, ops, "1,2,3" if gi % 2 else "1,2", "1,2", 3) for gi, g in enumerate(["1,2", "3,1", "4,5,7", "6,2", "1", "3", "5,7,4"])]
    if "gen" in ops:    # the same few objects, over and over: files rewritten, generators built before and after
        groups += [("1", ["new", "save", "calib", "gen"], "1", "1", 6), ("2,1", ["new", "save", "write", "read", "mutate", "gen", "load"], "1", "1", 5)]
    for gi, (g, os_, probs, dirs, t) in enumerate(groups):
        hs = c.scenarios("ProblemSim", SIM % (probs, dirs, g, ",".join('"%s"' % o for o in os_), depth), num=num, depth=3 * depth + 2, seed=c.seed + gi)
        hs = uniq(hs)
        hs = cover.choose(c, hs, cover.chains(lambda o: o["op"] + (o.get("k", "") if o["op"] != "save" else "") + (o["n"] if o["op"] == "badlen" else ""), lambda o: {k: o[k] for k in ("p", "h", "d", "g") if k in o}, t), c.n(7, 60))
        for h in c.timely(hs):
            dt = torch.float64 if q % 3 == 2 else torch.float32
            torch.set_default_dtype(dt)
            torch.manual_seed(c.seed * 1000 + q)
            try:
                dat = gen(torch.logspace(-1, 1, 5) / 40.)
                w = World(c.scratch)
                ev.append(dict(a="reset"))
                ev += scenario(w, h, q, dt, dat)
            finally:
                torch.set_default_dtype(torch.float32)
            q += 1
    torch.set_rng_state(st)
    c.trace("ProblemTrace", ev, what="calibration problems, vectors and files")


def C13(c):
    campaign(c, ["new", "read", "write", "badlen", "mutate", "calib", "plot"], c.n(300, 2000), c.n(13, 16))


def C14(c):
    campaign(c, ["new", "save", "load", "badsave", "edit", "calib", "read", "write", "mutate", "gen"], c.n(300, 2000), c.n(13, 16))
    # a wind-field generator built from the file: kernel and windows
    from . import kernel, fieldvals
    kernel.points(c, "phi", c.n(160, 900), only=lambda h: h["model"] == "DRD" and h["via"] == "generator")
    fieldvals.windows(c, fieldvals.picks(c, "WindowSim", c.n(60, 500), lambda h: h["robust"] and h["model"] == "DRD" and np.prod(h["geo"]["w"]) < 60000)[:c.n(40, 400)])
