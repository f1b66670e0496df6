"""Random-field samplers (C08)."""
from .api import *
from .fieldvals import uniq
from drdmannturb.fluctuation_generation.covariance_kernels import Covariance, MannCovariance, VonKarmanCovariance
from drdmannturb.fluctuation_generation.gaussian_random_fields import GaussianRandomField, VectorGaussianRandomField


class Scalar(Covariance):
    """A positive scalar spectrum, even in every wavenumber."""

    def __init__(self):
        super().__init__(ndim=3)

    def precompute_Spectrum(self, Frequencies):
        k = np.meshgrid(*Frequencies, indexing="ij")
        return 1. / (1. + .3 * k[0] ** 2 + .1 * k[1] ** 2 + .7 * k[2] ** 2)


COMBOS = {1: (1., 0., 0.), 2: (0., 1., 0.), 3: (0., 0., 1.), 4: (2.5, -1., 0.), 5: (0., 0., 0.), 6: (-1., .5, 3.), 7: (0., 1e3, 0.), 8: (64., 0., 0.), 9: (0., 1., -1.)}


def build(kind, shape, lv, dims):
    kw = dict(grid_level=np.array(lv), grid_dimensions=np.array(dims), grid_shape=np.array(shape), ndim=3)
    if kind == "vf_vk":
        return VectorGaussianRandomField(Covariance=VonKarmanCovariance(3, 4.7, 1.3), sampling_method="vf_fftw", **kw)
    if kind == "vf_mann":
        return VectorGaussianRandomField(Covariance=MannCovariance(3, 6.1, 1.3, 1.1), sampling_method="vf_fftw", **kw)
    return GaussianRandomField(Covariance=Scalar(), sampling_method=kind, **kw)


def spectrum(kind, k):
    if kind == "vf_vk":
        return VonKarmanCovariance(3, 4.7, 1.3).precompute_Spectrum(k)
    if kind == "vf_mann":
        return MannCovariance(3, 6.1, 1.3, 1.1).precompute_Spectrum(k)
    return Scalar().precompute_Spectrum(k)


def C08(c):
    cfg = "SPECIFICATION Spec\nCONSTANTS Inputs = {%s} Depth = %d Samplers = {%s}\n"
    c.model("Sampler", cfg % ("1,2", 4, "1,2") + "INVARIANT HistoryFree\nPROPERTY ResultsStay\n")
    hs = c.scenarios("Sampler", cfg % (",".join(map(str, COMBOS)), c.n(6, 12), "1,2") + "INVARIANT Emit\n", num=c.n(4, 20), depth=20)
    rng = np.random.RandomState(c.seed)
    rng.shuffle(hs)
    ev, k = [], 0
    geos = [((9, 5, 7), (3, 2, 2), (40., 30., 35.)), ((8, 6, 10), (2, 3, 1), (25., 60., 11.)), ((5, 4, 3), (1, 1, 2), (9., 7., 21.)), ((6, 9, 5), (2, 2, 2), (10., 10., 10.)),
            ((3, 12, 8), (1, 1, 1), (100., 3., 40.))]
    for kind in ("vf_vk", "vf_mann", "fft", "fftw", "dst", "dct"):
        vec = kind.startswith("vf")
        for gi, (shape, lv, dims) in enumerate(geos):
            if not c.thorough and not vec and gi > 2:
                continue
            full = shape + (3,) if vec else shape
            base = [np.rint(64 * rng.normal(size=full)) / 64 for _ in range(3)]      # exact in single precision; times 64, whole numbers
            pr = [tuple(rng.randint(0, m) for m in full) for _ in range(40)]
            probe = lambda a: [r(a[p].real) for p in pr]
            tol = "3e-5" if vec else "1e-9"
            # every base image from a sampler of its own
            def fresh():
                return [np.array(build(kind, shape, lv, dims).sample(b.copy())) for b in base]
            out, im = call(fresh)
            ev.append(dict(a="reset"))
            ev.append(dict(a="def", kind=kind, out=out, base=[probe(x) for x in im] if out == "ok" else []))
            if out != "ok":
                continue
            # the Fourier relation
            if kind in ("vf_vk", "vf_mann", "fft", "fftw"):
                h = np.array(dims) / (2. ** np.array(lv) + 1)
                ks = [2 * np.pi / (h[j] * shape[j]) * shape[j] * np.fft.fftfreq(shape[j]) for j in range(3)]
                with quiet():
                    G = np.asarray(spectrum(kind, ks))
                modes = []
                for b, x in zip(base, im):
                    xh, uh = np.fft.fftn(b, axes=(0, 1, 2)), np.fft.fftn(x, axes=(0, 1, 2))
                    gx = np.einsum("ijxyz,xyzj->xyzi", G, xh) if vec else G * xh
                    for q in np.ndindex(*shape):
                        if any(2 * q[j] == shape[j] for j in range(3)):
                            continue
                        u, g = np.atleast_1d(uh[q]), np.atleast_1d(gx[q])
                        modes.append((rs(np.concatenate([u.real, u.imag])), rs(np.concatenate([g.real, g.imag])), float(np.abs(gx).max())))
                lead = max(range(len(modes)), key=lambda n: max(abs(float(t)) for t in modes[n][1]))
                order = [lead] + list(rng.choice(len(modes), min(len(modes), c.n(80, 400)), replace=False))
                for n, m in enumerate(order):
                    u, g, sc = modes[m]
                    ev.append(dict(a="mode", kind=kind, lead=n == 0, c=1 + int(np.argmax([abs(float(t)) for t in g])), u=u, gx=g, sc=r(sc), tol="1e-4" if vec else "1e-9"))
            for hh in hs[(gi * 3) % len(hs):][:c.n(3, 8)]:
                sm, mine = {}, np.zeros(full)
                kept = []
                for o in hh:
                    if o["s"] not in sm:
                        sm[o["s"]] = build(kind, shape, lv, dims)
                    x = sum(a * b for a, b in zip(COMBOS[o["i"]], base)) + np.zeros(full)
                    if o["w"]:       # the array the caller used before, filled anew
                        mine[...] = x
                        x = mine
                    elif o["i"] == 8:
                        x = x.astype(np.int64)
                    elif o["i"] == 9:
                        x = x.astype(np.float32)
                    elif o["i"] == 3:
                        x = np.asfortranarray(x)
                    x0 = x.copy()
                    out, y = call(sm[o["s"]].sample, x)
                    e = dict(a="use", kind=kind, i=o["i"], co=rs(COMBOS[o["i"]]), out=out, tol="3e-5" if o["i"] == 9 else tol)
                    if out == "ok":
                        y = np.asarray(y)
                        e.update(v=probe(y) if y.shape == full else [], insame=bool(np.array_equal(x, x0)), older=all(digest(a) == d for a, d in kept), shape=y.shape == full,
                                 real=not np.iscomplexobj(y) and bool(np.isfinite(y).all()))
                        kept.append((y, digest(y)))
                    ev.append(e)
                k += 1
            # noise drawn by the sampler itself
            s = int(rng.randint(1 << 30))
            def draw():
                g = build(kind, shape, lv, dims)
                g.reseed(s)
                x = g.sample_noise(np.array(full)).copy()
                if vec:
                    return x, np.asarray(g.sample(x)), np.asarray(g.sample(x))
                g.reseed(s)
                return x, np.asarray(g.sample()), np.asarray(build(kind, shape, lv, dims).sample(x))
            out, v = call(draw)
            n = np.random.RandomState(s).normal(size=full).ravel()[:30]
            ev.append(dict(a="noise", out=out if out != "ok" or np.allclose(v[1], v[2], rtol=1e-6, atol=1e-6 * np.abs(v[2]).max()) else "differs", x=rs(v[0].ravel()[:30]) if out == "ok" else [],
                           n=rs(n), hh=rs(np.array(dims) / (2. ** np.array(lv) + 1))))
    for m in ("FFT", "", "spline", "vf", "fftw "):
        out, _ = call(build, m, *geos[0])
        ev.append(dict(a="unknown", m=m, out=out))
    def reset():
        g = build("fft", *geos[0])
        g.setSamplingMethod("nope")
    out, _ = call(reset)
    ev.append(dict(a="unknown", m="nope", out=out))
    c.trace("SamplerTrace", ev, ntraces=k, what="samplers")
