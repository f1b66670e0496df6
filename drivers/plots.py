"""Pictures of problems (C28)."""
import re, shutil, tempfile
from .api import *
from pathlib import Path
from vlib import cover
from . import problem as pr, calib
from .spectra import coh_file

SIM = """SPECIFICATION SSpec
CONSTANTS Data = {1,2} MaxV = 4 Bases = {1,2} Depth = %d Archs = {1,2,3,4,5,6,7}
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
MC = """SPECIFICATION Spec
CONSTANTS Data = {1,2} MaxV = %d Bases = {%s}
INVARIANTS NothingFromNothing FilesWereShown
PROPERTIES ShowsNow OnlyPlotsDraw LookingChangesNothing
CHECK_DEADLOCK FALSE
"""


def new(arch, nc, phys, ustar, scratch, outdir, **kw):
    et, nl, nh, nu, sp = pr.ARCHS[arch]
    L, G, S = phys
    return D.CalibrationProblem(nn_params=D.NNParameters(nlayers=nl, hidden_layer_size=nh, activations=[torch.nn.ReLU() for _ in range(nl)]),
                                prob_params=D.ProblemParameters(eddy_lifetime=getattr(pr.ET, et), nepochs=2, wolfe_iter_count=4, learning_rate=.1, learn_nu=nu, use_learnable_spectrum=sp, num_components=nc),
                                loss_params=D.LossParameters(alpha_pen2=.1, beta_reg=1e-4 if et == "TAUNET" else 0.),
                                phys_params=D.PhysicalParameters(L=L, Gamma=G, sigma=S, zref=40., ustar=ustar, domain=torch.logspace(-1, 1, 5), **kw), integration_params=pr.INTEG(),
                                logging_directory=scratch + "/tb", output_directory=outdir)


def arr(x):
    return np.asarray(x.detach() if torch.is_tensor(x) else x, dtype=float)


def pos(ax):
    b = ax.get_position()
    return (-round(b.y0, 2), round(b.x0, 2))


def figures():
    """The open figures by what they are."""
    import matplotlib.pyplot as plt
    out = dict(spectra=None, tau=None, coh=None)
    for num in plt.get_fignums():
        f = plt.figure(num)
        title = [a.get_title() for a in f.get_axes()]
        if sum("pectra" in t for t in title) >= 6:
            out["spectra"] = f
        elif any("oherence" in t for t in title):
            out["coh"] = f
        elif any("ifetime" in t for t in title):
            out["tau"] = f
    return out


def read_spectra(f):
    out = []
    for a in f.get_axes():
        m = [l for l in a.get_lines() if "model" in str(l.get_label())]
        d = [l for l in a.get_lines() if "data" in str(l.get_label())]
        if not m and not d:
            continue
        y = lambda ls, g: rs(arr(g(ls[0]))) if len(ls) == 1 else [] if not ls else ["0"] * 99
        X, Y = lambda l: l.get_xdata(), lambda l: l.get_ydata()
        out.append(dict(name="".join(re.findall(r"\d", a.get_title())), x=y(m, X), model=y(m, Y), data=y(d, Y), dx=y(d, X)))
    return out


def read_tau(f):
    out = []
    for a in f.get_axes():
        for l in a.get_lines():
            s = str(l.get_label())
            g = re.search(r"\((k[_\d]*(,k)*)\)", s)
            out.append(dict(name="ref" if "ref" in s else g.group(1) if g else s, x=rs(arr(l.get_xdata())), y=rs(arr(l.get_ydata()))))
    return out


def read_coh(f):
    axs = sorted([a for a in f.get_axes() if a.get_lines()], key=pos)
    cells = []
    for n, a in enumerate(axs):
        head, side = axs[n % 3].get_title(), axs[n // 3 * 3].get_ylabel()
        ls = {w: [l for l in a.get_lines() if w in str(l.get_label())] for w in ("Data", "Model")}
        y = lambda w: rs(arr(ls[w][0].get_ydata())) if len(ls[w]) == 1 else []
        num = re.findall(r"[-\d.]+", side)
        cells.append(dict(col=head.split()[-1] if head else "", sep=r(num[-1]) if num else "nan", x=rs(arr(ls["Data"][0].get_xdata())) if ls["Data"] else [], data=y("Data"), model=y("Model")))
    return cells


def listing(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as g:
                b = g.read()
            out[os.path.relpath(p, d)] = digest(np.frombuffer(b, dtype=np.uint8)) + ("png" if b[:8] == b"\x89PNG\r\n\x1a\n" else "")
    return out


def pats(h):
    """Which plots follow which changes, with what of the problem present."""
    out, since, coh, data = set(), (), False, False
    for o in h["ops"]:
        if o["op"] == "plot":
            w = (o["src"], o["tau"], o["save"], o.get("model"))
            out |= {w, (w, coh, data), (w, h["nc"]), (o["src"], o["tau"], since[-2:], coh), (o["src"], h["arch"], coh, o["tau"]), (o["save"], o["b"], since[-1:]), (o["src"], h["nc"], coh), ("given", h["arch"], h["nc"], o.get("model"))}
            since += (o["op"] + o["src"][0] + str(o["tau"])[0],)
        else:
            since += (o["op"] + str(o.get("c", "")),)
            if o["op"] == "calib":
                coh, data = o["c"], True
    return out


@contextlib.contextmanager
def cheap(on):
    """Render nothing that is not saved, and that coarsely: what a figure shows is read from its lines."""
    if not on:
        yield
        return
    from matplotlib.axes import Axes
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg as Canvas
    draw, tight, save, grid = Canvas.draw, Figure.tight_layout, Figure.savefig, Axes.grid
    def savefig(self, fname, *a, **k):
        Canvas.draw = draw
        try:
            return save(Figure(figsize=(1, 1)), fname, format=k.get("format"), dpi=8)
        finally:
            Canvas.draw = nothing
    def nothing(self, *a, **k):
        return None
    Canvas.draw = Figure.tight_layout = Axes.grid = nothing
    Figure.savefig = savefig
    try:
        yield
    finally:
        Canvas.draw, Figure.tight_layout, Figure.savefig, Axes.grid = draw, tight, save, grid


def C28(c):
    import matplotlib.pyplot as plt
    c.model("Plots", MC % (c.n(2, 3), c.n("1", "1,2")))
    depth = c.n(7, 10)
    hs = c.scenarios("PlotsSim", SIM % depth, num=c.n(1200, 8000), depth=3 * depth + 2)
    hs = cover.choose(c, hs, pats, c.n(40, 400))
    ev, st, ntr = [], torch.get_rng_state(), 0
    for q, h in enumerate(c.timely(hs)):
        rng = np.random.RandomState(31 * c.seed + q)
        dt = calib.DT["f32" if q % 3 == 2 else "f64"]
        torch.set_default_dtype(dt)
        plt.close("all")
        try:
            phys = (float(np.exp(rng.uniform(-1, 2))), float(rng.uniform(.4, 4.)), float(rng.uniform(.3, 5.)))
            ustar = float(rng.choice([1., .4, 2.3]))
            top = tempfile.mkdtemp(prefix="plots", dir=c.scratch)
            dirs = dict(here=top + "/to here/x", default=top + "/default out")
            uref, fac = float(rng.choice([4., 21.])), float(rng.choice([1., 2 * np.pi]))
            odir = lambda b: None if not b else dirs["default"] if q % 2 else Path(dirs["default"])
            torch.manual_seed(q)
            out, pb = call(new, h["arch"], h["nc"], phys, ustar, c.scratch, odir(h["out"]), Uref=uref, wavenumber_conversion_factor=fac)
            ev += [dict(a="reset"), dict(a="new", out=out, b=h["out"], arch=h["arch"], nc=h["nc"])]
            ntr += 1
            if out != "ok":
                continue
            if pr.ARCHS[h["arch"]][0] == "TAUNET":
                with torch.no_grad():
                    for x in pb.OPS.tauNet.parameters():
                        x.add_(torch.tensor(.3 * rng.rand(*x.shape), dtype=dt))
            m = int(rng.randint(2, 6))       # often all data are equally long
            dats = {d: calib.custom(m if q % 4 else int(rng.randint(1 if d == 2 else 2, 6)), rng, dt, shift=rng.uniform(-.7, .7)) for d in (1, 2)}
            own, cohs = None, None
            tol = "1e-6" if dt == torch.float64 else "2e-4"
            for o in h["ops"]:
                op = o["op"]
                if op == "set":
                    def setit():
                        pb.parameters = pb.parameters * (1 + .1 * rng.rand()) + .05
                    out, _ = call(setit)
                    ev.append(dict(a="set", out=out))
                elif op == "direct":
                    pb.output_directory = odir(o["b"])
                    ev.append(dict(a="direct", out="ok", b=o["b"]))
                elif op == "calib":
                    own = calib.custom(m if q % 4 and m > 2 else int(rng.randint(3, 7)), rng, dt, shift=rng.uniform(-.7, .7))
                    kw = dict(optimizer_class=torch.optim.Adam)
                    if o["c"]:
                        ns, nf = int(rng.randint(4, 8)), int(rng.randint(2, 5))
                        seps, fr = np.sort(rng.uniform(.3, 60., ns)), np.sort(np.exp(rng.uniform(-3, 1, nf)))
                        if q % 2:
                            fr[0] = 0.
                        cohs = dict(seps=seps, fr=fr, v=rng.rand(3, ns, nf))
                        path = top + "/coh.dat"
                        coh_file(path, seps.tolist(), fr.tolist(), cohs["v"].tolist())
                        kw["coherence_data_file"] = path
                    out, _ = call(lambda: pb.calibrate(own, **kw))
                    ev.append(dict(a="calib", out=out, coh=o["c"]))
                else:
                    if q % 2:
                        plt.close("all")
                    before = {s: figures()[s] for s in ("spectra", "tau", "coh")}
                    for f in before.values():
                        if f is not None:
                            f.clf()      # what a figure shows afterwards was drawn now
                    given = dats[o["d"]]
                    dat = given if o["src"] == "given" else own
                    keep = calib.clone(dat) if dat is not None else None
                    kw = dict(plot_tau=o["tau"])
                    if o["src"] == "given":
                        kw["OPSData"] = ([(float(x), 40.) for x in given["k1"]], given["ops"])
                    if o["model"] and dat is not None:
                        kw["model_vals"] = pb.OPS(dat["k1"])
                    if o["save"] != "no":
                        kw["save"] = True
                    if o["save"] == "here":
                        kw["save_dir"] = dirs["here"] if q % 2 else Path(dirs["here"])
                    base = "" if o["b"] == 1 else "fit v1.2"
                    if base:
                        kw["save_filename"] = base
                    disk0, p0 = listing(top), pr.vd(pb.parameters)
                    want = arr(pb.eval(dat["k1"])) if dat is not None else None
                    with cheap(q > 1):
                        out, _ = call(lambda: pb.plot(**kw))
                    disk1 = listing(top)
                    target = os.path.relpath(dirs[o["save"]], top) + os.sep if o["save"] in dirs else ""
                    new_ = [x for x in disk1 if disk1[x] != disk0.get(x)]
                    # a file rewritten with the same picture counts as written if the picture is there
                    maybe = [x for x in disk1 if x not in new_ and target and x.startswith(target) and x[len(target):] in {(base or "drdmannturb_final_spectra_fit") + t for t in ["_spectra.png"] + ["_tau.png"] * o["tau"]}] if out == "ok" else []
                    figs = figures()
                    live = {s: f is not None and any(a.get_lines() for a in f.get_axes()) for s, f in figs.items()}
                    e = dict(a="plot", h=o, nc=h["nc"], arch=h["arch"], out=out, src=o["src"], tau=o["tau"], save=o["save"], base=base, p0=p0, p1=pr.vd(pb.parameters),
                             intact=dat is None or calib.same(keep, dat), written=sorted(x[len(target):] if target and x.startswith(target) else "elsewhere: " + x for x in new_ + maybe),
                             png=all(disk1[x].endswith("png") for x in new_ + maybe), unlinked=all(x in disk1 for x in disk0),
                             hasspectra=live["spectra"], hastau=live["tau"], hascoh=live["coh"], ustar=r(ustar), tol=tol, ctol="1e-6" if dt == torch.float64 else "3e-3", catol="1e-9" if dt == torch.float64 else "1e-3")
                    if out == "ok":
                        e.update(k=rs(dat["k1"]), ops=rows(want), data=rows(dat["ops"]))
                        if live["spectra"]:
                            e["panels"] = read_spectra(figs["spectra"])
                        if live["tau"]:
                            taus = read_tau(figs["tau"])
                            vals, dirs_ = [], []
                            for name, w in (("k_1", (1, 0, 0)), ("k_2", (0, 1, 0)), ("k_3", (0, 0, 1)), ("k,k,k", (3 ** -.5,) * 3)):
                                x = [t["x"] for t in taus if t["name"] == name]
                                k = torch.tensor(np.outer(np.array(x[0] if x else [1.], dtype=float) / phys[0], w), dtype=dt)
                                o2, y = call(lambda: pb.OPS.EddyLifetime(k).detach())
                                vals.append(rs(y) if o2 == "ok" else [])
                                dirs_.append(rs(w))
                            e.update(taus=taus, vals=vals, dirs=dirs_, G=r(phys[1]))
                        if live["coh"] and cohs is not None:
                            ns = len(cohs["seps"])
                            sel = np.linspace(0, ns - 1, 4, dtype=int)
                            use = np.flatnonzero(cohs["fr"] > 1e-6)
                            mod = np.ones((3, 4, len(cohs["fr"])))
                            k1 = torch.tensor(fac * cohs["fr"][use] / uref, dtype=dt)
                            o2, y = call(lambda: arr(pb.OPS.SpectralCoherence(k1, torch.tensor(cohs["seps"][sel], dtype=dt))))
                            if o2 == "ok":
                                mod[:, :, use] = y
                            e.update(cells=read_coh(figs["coh"]), seps=rs(cohs["seps"][sel]), freq=rs(cohs["fr"]), dat=rows(cohs["v"][:, sel]), mod=rows(mod))
                    ev.append(e)
        finally:
            torch.set_default_dtype(torch.float32)
            plt.close("all")
    torch.set_rng_state(st)
    ev += losses(c) + slow_fields(c)
    c.cov["outcomes"] = {o: sum(e.get("out") == o for e in ev) for o in {e["out"] for e in ev if "out" in e}}
    c.trace("PlotsTrace", ev, ntraces=ntr, what="pictures")


def losses(c):
    """Runs logged into one directory and drawn by number."""
    import matplotlib.pyplot as plt
    from tensorboard.backend.event_processing.event_accumulator import EventAccumulator
    ev = [dict(a="reset")]
    rng = np.random.RandomState(c.seed + 5)
    for q in c.timely(range(c.n(4, 20))):
        raw, tb = tempfile.mkdtemp(prefix="raw", dir=c.scratch), tempfile.mkdtemp(prefix="tb", dir=c.scratch)
        runs, pb = [], None
        for n in range(int(rng.randint(1, 5))):
            arch = int(rng.choice([1, 4, 7]))
            def fit():
                p = new(arch, int(rng.choice([3, 4, 6])), (.6 + n, 2., 1.), .4, c.scratch, None)
                p.loss_params.alpha_pen1, p.loss_params.alpha_pen2 = float(rng.choice([0., .3])), float(rng.choice([0., .3]))
                p.prob_params.nepochs = int(rng.choice([0, 1, 3, 6]))
                p.logging_directory = d = tempfile.mkdtemp(prefix="run", dir=raw)
                p.calibrate(calib.custom(5, rng, torch.float32), optimizer_class=torch.optim.Adam)
                p.LossAggregator.writer.close()
                return p, d
            out, v = call(fit)
            if out != "ok":
                ev.append(dict(a="losses", out=out, shown=[], logged=[]))
                break
            pb, d = v
            f = [x for x in sorted(os.listdir(d)) if "tfevents" in x][0]
            acc = EventAccumulator(os.path.join(d, f))
            acc.Reload()
            runs.append((os.path.join(d, f), [dict(tag=t, y=[r(x.value) for x in acc.Scalars(t)]) for t in acc.Tags()["scalars"]]))
        else:
            # the runs as files of one directory, named as TensorBoard names them, created in any order
            t0 = 1700000000 + int(rng.randint(0, 10 ** 7))
            when = np.cumsum(rng.randint(1, 2000, len(runs))) + t0
            for n in rng.permutation(len(runs)):
                shutil.copy(runs[n][0], os.path.join(tb, "events.out.tfevents.%d.host.%d.0" % (when[n], rng.randint(100, 9999))))
            pb.logging_directory = tb
            for n in range(len(runs)):
                plt.close("all")
                with cheap(q > 0):
                    out, _ = call(lambda: pb.plot_losses(n))
                shown = []
                if out == "ok":
                    for a in [a for num in plt.get_fignums() for a in plt.figure(num).get_axes()]:
                        shown += [dict(tag=a.get_title(), y=rs(arr(l.get_ydata()))) for l in a.get_lines()]
                ev.append(dict(a="losses", run=n, of=len(runs), out=out, shown=shown, logged=runs[n][1]))
    plt.close("all")
    return ev


def slow_fields(c):
    """Pictures of low-frequency fields."""
    import matplotlib.pyplot as plt
    from . import lowfreq
    rng = np.random.RandomState(c.seed + 9)
    hs = [h for h in lowfreq.requests(c, 12, 3000) if lowfreq.build(lowfreq.conf(h))[0] == "ok"][:2 * c.n(5, 30)]
    life = "SPECIFICATION Spec\nCONSTANTS Gens = {1,2} Depth = 7\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    progs = c.scenarios("LowFreqLife", life, num=c.n(60, 400), depth=9)
    progs = cover.choose(c, progs, cover.chains(lambda o: o["op"], lambda o: dict(g=o["g"]), 3), len(hs) // 2, name="slow_field_patterns")
    ev = []
    for q, prog in enumerate(c.timely(progs)):
        gs = {n: lowfreq.build(lowfreq.conf(hs[2 * q + n - 1]))[1] for n in (1, 2)}
        ev.append(dict(a="reset"))
        np.random.seed(q)
        for o in prog + [dict(op="interp", g=1), dict(op="interp", g=2)]:
            g = gs[o["g"]]
            if o["op"] == "gen":
                out, _ = call(g.generate)
                ev.append(dict(a="slow", g=o["g"], out=out))
            elif o["op"] == "interp":
                plt.close("all")
                state = lambda: [digest(x) for x in (g.u1, g.u2, g.user_x_coords, g.user_y_coords) if x is not None]
                was = state()
                with cheap(q > 0):
                    out, _ = call(g.plot_velocity_fields)
                e = dict(a="slowplot", g=o["g"], out=out, intact=was == state(), images=[])
                if out == "ok":
                    e.update(u=rows(g.u1), v=rows(g.u2), x=rs(g.user_x_coords), y=rs(g.user_y_coords))
                    for a in [a for n in plt.get_fignums() for a in plt.figure(n).get_axes()]:
                        for i in a.get_images():
                            A = np.asarray(i.get_array(), dtype=float)
                            if i.origin == "upper":
                                A = A[::-1]
                            e["images"].append(dict(name=a.get_title()[-1:], a=rows(A), ext=rs(i.get_extent()), lim=rs(i.get_clim())))
                ev.append(e)
    plt.close("all")
    return ev
