"""Square-root spectral kernels (C06, C07)."""
from .api import *
from . import fieldgen as fg
from .fieldvals import PICK, uniq
from vlib import cover
from drdmannturb.fluctuation_generation.covariance_kernels import MannCovariance, VonKarmanCovariance
from drdmannturb.fluctuation_generation.nn_covariance import NNCovariance


def axes(h, rng):
    f = [float(h["f%d" % j]) for j in (1, 2, 3)]
    if h["grid"] == "fft":
        n = [int(rng.randint(3, 8)) for _ in f]
        return [2 * np.pi * x * m * np.fft.fftfreq(m) for x, m in zip(f, n)]
    if h["grid"] == "axis":
        return [x * np.array([-1., 0., 1.]) for x in f]
    if h["grid"] == "tiny":
        return [x * np.array([-1e-3, -1e-5, 0., 1e-5, 1e-3]) for x in f]
    if h["grid"] == "thin":
        return [f[0] * np.array([-2.7, 2.7]), f[1] * np.array([0.]), f[2] * np.array([-1., -.1, 0., .1, 1.])]
    return [x * np.array([-31., -1.1, 0., 1.1, 31.]) for x in f]


def ops_of(path):
    """The saved model as a calibration problem, independent of the generator."""
    import pickle
    with open(path, "rb") as f:
        nn, prob, loss, phys, v = pickle.load(f)
    with quiet():
        pb = D.CalibrationProblem(nn_params=nn, prob_params=prob, loss_params=loss, phys_params=phys, integration_params=D.IntegrationParameters())
        pb.parameters = v
    return pb


def kernel_of(h, scratch):
    """(covariance, problem or None, length scale, time scale, amplitude before scaling)"""
    L, G, E, us, z = (float(h[k]) for k in ("L", "G", "E", "ustar", "zref"))
    dims, lv = np.array([100., 80., 60.]) * max(L, 1e-3) / 20, np.array([1, 1, 1])
    if h["model"] == "DRD":
        G = G or .4
        path = fg.drd_file(scratch, L=L / z, G=G, S=E, seed=3)
        pb = ops_of(path)
        if h["via"] == "class":
            return NNCovariance(ndim=3, length_scale=L, E0=E, Gamma=G, ops=pb.OPS, h_ref=z), pb, L, G, E
        g = FFG(us, z, dims, lv, "DRD", path_to_parameters=path, seed=1, blend_num=0)
        return g.Covariance, pb, L, G, E * 4 * np.pi * (L / z) ** (-5 / 3)
    if h["via"] == "generator":
        g = FFG(us, z, dims, lv, h["model"], L, G, E, seed=1, blend_num=0)
        return g.Covariance, None, L, G, E
    if h["model"] == "VK":
        return VonKarmanCovariance(ndim=3, length_scale=L, E0=E), None, L, G, E
    return MannCovariance(ndim=3, length_scale=L, E0=E, Gamma=G), None, L, G, E


def points(c, kind, num, only=None):
    rng = np.random.RandomState(c.seed)
    hs = uniq(c.scenarios("KernelSim", PICK, num=3 * num, depth=20))
    hs = cover.order(hs, rng, c=c)
    hs = [h for h in hs if only is None or only(h)][:num]
    ev = []
    for h in c.timely(hs):
        out, val = call(kernel_of, h, c.scratch)
        ax = axes(h, rng)
        if out == "ok":
            cov, pb, L, G, E = val
            keep = [a.copy() for a in ax]
            out, K = call(cov.precompute_Spectrum, ax)
        ev.append(dict(a="build", h=h, out=out if out != "ok" or all(np.array_equal(a, b) for a, b in zip(ax, keep)) else "InputModified"))
        if out != "ok":
            continue
        K = np.asarray(K)
        if K.shape[:2] != (3, 3) or K.shape[2:] != tuple(len(a) for a in ax):
            ev.append(dict(a="build", h=h, out="shape %s" % (K.shape,)))
            continue
        pos = {j: {float(v): i for i, v in enumerate(a)} for j, a in enumerate(ax)}
        idx = [(i, j, l) for i in range(len(ax[0])) for j in range(len(ax[1])) for l in range(len(ax[2]))]
        if pb is not None:
            kv = np.array([[ax[0][i], ax[1][j], ax[2][l]] for i, j, l in idx]) * float(h["zref"])
            with quiet():
                bt = pb.OPS.EddyLifetime(torch.tensor(kv, dtype=pb.OPS.logLengthScale.dtype)).detach().numpy().astype(float).ravel()
            bt[~np.isfinite(bt)] = 0.
        pick = range(len(idx))
        if len(idx) > 48:
            pick = sorted(rng.choice(len(idx), 48, replace=False))
        for q in pick:
            i, j, l = idx[q]
            k = [ax[0][i], ax[1][j], ax[2][l]]
            g = K[:, :, i, j, l]
            e = dict(a=kind, model=h["model"], via=h["via"], L=r(L), G=r(G), E=r(E), ustar=h["ustar"], zref=h["zref"], k=rs(k), g=rows(g.imag), grid=h["grid"])
            if kind == "phi":
                if pb is not None:
                    e["beta"] = r(bt[q])
            else:
                e["fin"], e["re"] = bool(np.isfinite(g).all()), r(np.abs(g.real).max())
                ng = [pos[a].get(-float(x) + 0.) for a, x in enumerate(k)]
                e["hasneg"] = all(x is not None for x in ng)
                e["gm"] = rows(K[:, :, ng[0], ng[1], ng[2]].imag) if e["hasneg"] else []
            ev.append(e)
    c.trace("KernelTrace", ev, ntraces=len(hs), what="kernel values")
    c.cov["rule"] = "wavevectors on axes, planes, FFT lattices of odd and even size, thin and tiny grids; L over 4, E over 5 decades; kernels built directly and by generators"


MC = """SPECIFICATION Spec
CONSTANTS Ks = {%s} Betas = {"0","0.3","2.5"} Ls = {"0.2","3.0"}
INVARIANTS Solenoidal NonNegative Even IsoLimit Lifetime
"""


def model(c):
    c.model("KernelMC", MC % c.n('"-2.1","-0.3","0","0.7","5.0"', '"-40.0","-2.1","-0.3","0","0.02","0.7","5.0"'))


def C06(c):
    model(c)
    points(c, "struct", c.n(150, 1200))


def C07(c):
    model(c)
    points(c, "phi", c.n(150, 1200))
