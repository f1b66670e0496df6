"""Data: coherence files (C23) and synthetic spectra (C24)."""
import os
from pathlib import Path
from .api import *
from .fieldvals import PICK, uniq
from vlib import cover
from . import problem as pr, spectra

DT = dict(f32=torch.float32, f64=torch.float64, i64=torch.int64)


def C24(c):
    c.model("SynthMC", 'SPECIFICATION Spec\nCONSTANTS Ks = {%s} Ls = {"0.01","0.59","120.0"} Us = {"0.3","4.0"}\nINVARIANTS Isotropic FourThirds Signs CauchySchwarz Similar\n' %
            c.n('"0.001","0.7","9.0","900.0"', ",".join('"%g"' % x for x in np.logspace(-5, 5, 41))))
    hs = uniq(c.scenarios("SynthSim", PICK, num=3 * c.n(260, 2500), depth=20))
    rng = np.random.RandomState(c.seed)
    hs = cover.order(hs, rng, c=c)
    ev = []
    for q, h in enumerate(c.timely(hs[:c.n(900, 9000)])):
        dt = DT[h["dtype"]]
        n = 1 if h["layout"] == "single" else h["n"]
        lo, hi = dict(mid=(-3, 2), tiny=(-8, -5), huge=(2, 5))[h["range"]]
        k = np.logspace(lo, hi, n) * np.exp(.1 * rng.rand()) if h["layout"] != "unsorted" else 10 ** rng.uniform(lo, hi, n)
        if h["layout"] == "repeated":
            k[-1] = k[0]
        whole = not dt.is_floating_point     # wavenumbers given as whole numbers
        if whole:
            k = np.ceil(k * dict(mid=20, tiny=1e9, huge=1)[h["range"]])
        t = torch.tensor(k, dtype=dt)
        if h["layout"] == "strided":
            t = torch.tensor(np.repeat(k, 2), dtype=dt)[::2]
        if h["layout"] == "grad" and not whole:
            t.requires_grad_(True)
        t0 = t.detach().clone()
        a, b = float(h["a"]), float(h["b"])
        vk = h["fn"] == "vk"
        f = D.generate_von_karman_spectra if vk else D.generate_kaimal_spectra
        na = ("L", "C") if vk else ("zref", "ustar")
        args = h["args"]
        if args == "integer":
            a, b = float(int(rng.randint(1, 200))), float(int(rng.randint(1, 9)))
            run = lambda x: f(x, int(a), int(b))
        elif args == "keyword":
            run = lambda x: f(x, **{na[1]: b, na[0]: a})
        elif args == "numpy":
            run = lambda x: f(x, np.float64(a), np.float64(b))
        elif args == "default" and vk:
            a, b = .59, 3.2
            run = lambda x: f(x)
        else:
            run = lambda x: f(x, a, b)
        out, y = call(run, t)
        e = dict(a="synth", h=h, fn=h["fn"], out=out, k1=rs(t0), a_=r(a), b_=r(b), tol="1e-11" if dt == torch.float64 else "3e-5")
        if out == "ok":
            ok = isinstance(y, dict) and {"k1", "ops"} <= set(y) and tuple(y["ops"].shape) == (n, 3, 3)
            e.update(shape=ok, intact=bool(torch.equal(t.detach(), t0)), coh=y.get("coherence", 0) is None)
            if ok:
                ops = y["ops"].detach().double().numpy().reshape(n, 9)
                idx = sorted(set(int(x) for x in rng.randint(0, n, 2)))[::-1]
                out2, z = call(run, t0[idx].clone())
                if out2 == "ok":
                    sub = z["ops"].detach().double().numpy().reshape(-1, 9)
                e.update(ops=rows(ops), rk1=rs(y["k1"].detach()), out=out2, sub=rows(sub) if out2 == "ok" else [], subi=[i + 1 for i in idx])
        ev.append(e)
    c.trace("SynthTrace", ev, ntraces=len(ev), what="synthetic spectra")


def file_rows(h, rng):
    si, fi = h["si"], h["fi"]
    sep = np.sort(rng.uniform(.1, 90., len(si)))
    fr = np.sort(np.exp(rng.uniform(-5, 1, len(fi))))
    if h["phys"] == "falling":
        sep, fr = sep[::-1], fr[::-1]
    if h["phys"] == "mixed":
        rng.shuffle(sep)
    R = [[i, j, float(sep[a]), float(fr[b])] + [float(x) for x in rng.rand(3)] for a, i in enumerate(si) for b, j in enumerate(fi)]
    drop = dict(none=0., some=.15, many=.5, values=.05)[h["missing"]]
    if h["missing"] == "values":  # rows in which one component was not measured
        for x in R:
            for n in (4, 5, 6):
                if rng.rand() < .12:
                    x[n] = float("nan")
    R = [x for x in R if rng.rand() >= drop] or R[:1]
    if h["order"] == "columns":
        R.sort(key=lambda x: (x[1], x[0]))
    if h["order"] == "reversed":
        R = R[::-1]
    if h["order"] == "shuffled":
        rng.shuffle(R)
    return R


COLS = "sep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w"


def write_rows(path, R, head="plain"):
    with open(path, "w") as f:
        if head != "plain":
            f.write("# measured coherence\n# site: x\n")
        cols, swap = COLS.split(), list(range(7))
        if head == "swapped":  # other order of the columns, and one more
            swap, cols = [4, 1, 6, 2, 0, 7, 5, 3], cols + ["count"]
        f.write(("   " if head == "spaces" else " ").join(cols[n] for n in swap) + "\n")
        for n, x in enumerate(R):
            g = ["%d" % x[0], "%d" % x[1]] + ["%r" % float(v) for v in x[2:]] + ["%d" % (n + 3)]
            f.write(("   " if head == "spaces" and n % 2 else " ").join(g[n] for n in swap) + "\n")


def shuffled_file(path, seps, freqs, coh):
    """The same data, rows in arbitrary order under arbitrary increasing indices."""
    rng = np.random.RandomState(len(seps) * 13 + len(freqs))
    a, b = np.cumsum(rng.randint(1, 4, len(seps))), np.cumsum(rng.randint(1, 4, len(freqs))) - 1
    R = [[int(a[i]), int(b[j]), s, f, coh[0][i][j], coh[1][i][j], coh[2][i][j]] for i, s in enumerate(seps) for j, f in enumerate(freqs)]
    rng.shuffle(R)
    write_rows(path, [[int(x[0]), int(x[1])] + list(x[2:]) for x in R], "comments")


def loaded(pb):
    return dict(seps=rs(pb.coherence_spatial_seps), freqs=rs(pb.coherence_frequencies), u=rows(pb.coherence_u), v=rows(pb.coherence_v), w=rows(pb.coherence_w),
                shape=[int(x) for x in pb.coherence_shape], sel=[int(x) for x in pb.coherence_plot_sep_indices], selseps=rs(pb.coherence_plot_separations))


def C23(c):
    c.model("CohDataMC", "SPECIFICATION Spec\nCONSTANTS SI = {1,2,4} FI = {0,3} MaxRows = %d\nINVARIANTS Placed OrderFree SelectedInRange\n" % c.n(4, 5))
    hs = uniq(c.scenarios("CohDataSim", PICK, num=3 * c.n(220, 2500), depth=20))
    rng = np.random.RandomState(c.seed)
    hs = cover.order(hs, rng, c=c)
    ev = []
    pbs = [pr.new(1, pr.PHYS[0], c.scratch), pr.new(4, pr.PHYS[1], c.scratch)]
    last = [None, None]
    for q, h in enumerate(c.timely(hs[:c.n(300, 3000)])):
        R = file_rows(h, rng)
        path = os.path.join(c.scratch, "coh.dat")
        write_rows(path, R, h["head"])
        w = int(rng.randint(2))
        out, _ = call(lambda: pbs[w].load_coherence_data(path if h["arg"] == "str" else Path(path)))
        e = dict(a="load", h=h, out=out, who=w, file=[dict(si=x[0], fi=x[1], sep=r(x[2]), freq=r(x[3]), u=r(x[4]), v=r(x[5]), w=r(x[6])) for x in R])
        if out == "ok":
            e.update(loaded(pbs[w]))
            e["others"] = last[1 - w] is None or loaded(pbs[1 - w]) == last[1 - w]
            last[w] = loaded(pbs[w])
        ev.append(e)
    c.trace("CohDataTrace", ev, ntraces=len(ev), what="coherence files")
    # what the fit then sees: shuffled files, arbitrary indices, any number of separations
    st = torch.get_rng_state()
    sh = uniq(c.scenarios("SpectraSim", PICK, num=3 * c.n(25, 200), depth=20))
    sh = cover.order(sh, rng, c=c)
    ev = spectra.coh_cals(c, sh[:c.n(25, 250)], rng, write=shuffled_file)
    torch.set_rng_state(st)
    c.trace("SpectraTrace", ev, ntraces=len(ev), what="calibration with coherence files")
