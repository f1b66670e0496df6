"""Export (C25) and grid helpers (C26)."""
import os, struct
import xml.etree.ElementTree as ET
from pathlib import Path
from .api import *
from .fieldvals import PICK, uniq
from vlib import cover
from . import fieldgen as fg
from drdmannturb.fluctuation_generation.wind_plot import create_grid, format_wind_field, plot_velocity_components, plot_velocity_magnitude


def read_vti(path):
    """Extent, spacing and the array called wind of a VTK image file (XML header, appended raw data)."""
    raw = open(path, "rb").read()
    cut = raw.index(b"<AppendedData")
    head = raw[:cut].decode() + "</VTKFile>"
    root = ET.fromstring(head)
    img = root.find("ImageData")
    start = raw.index(b"_", cut) + 1
    hs = 8 if root.get("header_type") == "UInt64" else 4
    order = "<" if root.get("byte_order") == "LittleEndian" else ">"
    out = dict(extent=[int(x) for x in img.get("WholeExtent").split()], spacing=[float(x) for x in img.get("Spacing").split()])
    piece = img.find("Piece")
    if [int(x) for x in piece.get("Extent").split()] != out["extent"]:
        raise ValueError("piece")
    for a in piece.iter("DataArray"):
        if a.get("Name") == "wind":
            off = start + int(a.get("offset"))
            n = struct.unpack(order + ("Q" if hs == 8 else "I"), raw[off:off + hs])[0]
            dt = np.dtype(dict(Float64="f8", Float32="f4")[a.get("type")]).newbyteorder(order)
            if a.get("NumberOfComponents") != "3":
                raise ValueError("components")
            out["wind"] = np.frombuffer(raw[off + hs:off + hs + n], dtype=dt).astype(float)
    return out


SIM = """SPECIFICATION SSpec
CONSTANTS Gens = {1,2} Paths = {1,2} MaxB = 4 Depth = %d
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def C25(c):
    c.model("ExportMC", "SPECIFICATION LSpec\nCONSTANTS Gens = {1,2} Paths = {1,2} MaxB = %d\nINVARIANTS NotAhead Layout Neighbours\nPROPERTIES OnlySaves SavingKeeps\n" % c.n(2, 3))
    depth = 6
    hs = uniq(c.scenarios("ExportSim", SIM % depth, num=c.n(40, 400), depth=depth + 2))
    rng = np.random.RandomState(c.seed)
    hs = cover.choose(c, hs, cover.chains(lambda o: o["op"], lambda o: {k: o[k] for k in ("g", "p") if k in o}, 4), c.n(26, 260))
    CF = fg.cfgs()
    CF += [dict(CF[0], dims=(3.1e-6, 2e-6, 2.7e-6), L=4e-7), dict(CF[2], dims=(4.1e7, 9.3e6, 1e7), L=2e6)]      # millimetres and planets
    ev, ntr = [], 0
    for q, h in enumerate(c.timely(hs[:c.n(26, 260)])):
        ev.append(dict(a="reset"))
        ntr += 1
        d = os.path.join(c.scratch, "x%d dir.v" % q)
        os.makedirs(d)
        gens, twins, ci = {}, {}, {}
        files = {}
        name = {1: os.path.join(d, "field"), 2: os.path.join(d, "a.b c")}

        def disk():
            return [dict(p="p%d" % p, field=digest(read_vti(name[p] + ".vti")["wind"])) for p in files]

        for o in h:
            g = o["g"]
            if g not in gens:
                ci[g] = CF[(q + 3 * g) % len(CF)]
                with quiet():
                    for w in (gens, twins):
                        w[g] = fg.build(ci[g], 11 + g, c.scratch)
            nb = list(fg.nblk(ci[g]))
            e = dict(a=o["op"], g="g%d" % g, nb=nb, dims=rs(ci[g]["dims"]))
            if o["op"] == "gen":
                old = np.array(gens[g].total_fluctuation) if gens[g].total_fluctuation is not None else None
                kw = fg.PROFILES[1 + q % 3]
                out, f = call(lambda: gens[g].generate(o["n"], **kw))
                out2, f2 = call(lambda: twins[g].generate(o["n"], **kw))
                e.update(n=o["n"], out=out if out != "ok" else out2)
                if e["out"] == "ok":
                    t = np.asarray(gens[g].total_fluctuation)
                    n0 = 0 if old is None or old.ndim != 4 else old.shape[0]
                    e.update(shape=list(t.shape), field=fdig(t), prefix=n0 == 0 or bool(np.array_equal(t[:n0], old)), files=disk(), twin=fg.close(np.asarray(f), np.asarray(f2)) and fg.close(t, np.asarray(twins[g].total_fluctuation)))
            else:
                p = o["p"]
                arg = name[p] if o["kind"] == "str" else Path(name[p])
                out, _ = call(lambda: gens[g].save_to_vtk(arg))
                t = np.asarray(gens[g].total_fluctuation)
                e.update(p="p%d" % p, out=out, field=fdig(t))
                if out == "ok":
                    ok, v = call(read_vti, name[p] + ".vti")
                    e["readable"] = ok == "ok" and "wind" in v
                    if e["readable"]:
                        files[p] = 1
                        W = v["wind"]
                        pts = [dict(i=int(rng.randint(t.shape[0])), j=int(rng.randint(t.shape[1])), k=int(rng.randint(t.shape[2])), c=int(rng.randint(3))) for _ in range(12)]
                        off = [3 * (x["i"] + t.shape[0] * (x["j"] + t.shape[1] * x["k"])) + x["c"] for x in pts]
                        full = W.size == t.size
                        e.update(extent=v["extent"], spacing=rs(v["spacing"]), count=int(W.size), whole=full and bool(np.array_equal(W.reshape(t.shape[2], t.shape[1], t.shape[0], 3).transpose(2, 1, 0, 3), t)),
                                 sample=[dict(x, val=r(t[x["i"], x["j"], x["k"], x["c"]])) for x in pts] if full else [], offs=off if full else [], flat=rs(W[off]) if full else [], files=disk())
            ev.append(e)
            if e["out"] != "ok":
                break
    # a file's identity is that of the field it must hold
    c.trace("ExportTrace", ev, ntraces=ntr, what="generation and export")


def fdig(t):
    """Identity of a field, as a file in x-fastest order would have it."""
    return digest(np.asarray(t).transpose(2, 1, 0, 3).reshape(-1).astype(float))


def field(kind, shape, h, rng):
    n = rng.uniform(-2, 2, (3, 3))
    X = np.meshgrid(*[h[a] * np.arange(shape[a]) for a in range(3)], indexing="ij")
    A = np.stack([sum(n[a, b] * X[b] for b in range(3)) + rng.randn() for a in range(3)], -1)
    if kind == "affine":
        return A, n[0, 0] + n[1, 1] + n[2, 2]
    if kind == "random":
        return rng.randn(*shape, 3), 0.
    if kind == "zero":
        return np.zeros((*shape, 3)), 0.
    if kind == "const":
        return np.ones((*shape, 3)) * rng.randn(3), 0.
    if kind == "tiny":
        return 1e-9 * rng.randn(*shape, 3), 0.
    if kind == "huge":
        return 1e6 * rng.randn(*shape, 3), 0.
    if kind == "swirl":
        return np.stack([-X[1], X[0], 3 * X[1]], -1), 0.
    return A + np.stack([rng.randn() * X[a] ** 2 + rng.randn() * X[0] * X[1] for a in range(3)], -1), 0.


def comps(F):
    return [rows(F[..., i]) for i in range(3)]


def C26(c):
    c.model("GridOpsMC", "SPECIFICATION Spec\nCONSTANTS Cs = {%s} \nINVARIANTS Exact Solenoidal\n" % c.n('"-1.0","0","2.5"', '"-1.0","0","2.5","0.01","13.0"'))
    hs = uniq(c.scenarios("GridOpsSim", PICK, num=3 * c.n(120, 1200), depth=20))
    rng = np.random.RandomState(c.seed)
    hs = cover.order(hs, rng, c=c)
    ev = []
    cf = fg.cfgs()
    gen = fg.build(cf[6], 3, c.scratch)
    for q, h in enumerate(c.timely(hs[:c.n(150, 1500)])):
        hh = [float(x) for x in h["h"]]
        if h["sp"] == "ints":
            hh = [float(x) for x in rng.randint(1, 9, 3)]
        sp = dict(tuple=tuple(hh), list=list(hh), array=np.array(hh), ints=tuple(int(x) for x in hh))[h["sp"]]
        F, exact = field(h["kind"], tuple(h["shape"]), hh, rng)
        if h["order"] == "F":
            F = np.asfortranarray(F)
        if h["order"] == "view":
            F = np.concatenate([F, F], axis=1)[:, :F.shape[1]]
        if h["order"] == "f32":
            F = F.astype(np.float32)
        F0 = F.copy()
        s0 = list(sp)
        use = q % 6 == 5       # the accumulated field by default
        if use:
            if gen.total_fluctuation is not None and np.asarray(gen.total_fluctuation).size > 500:
                gen = fg.build(cf[6], 3 + q, c.scratch)
            with quiet():
                gen.generate(1, **fg.PROFILES[1])
            F = gen.total_fluctuation
            F0 = np.array(F)
        out, y = call(lambda: gen.evaluate_divergence(sp) if use else gen.evaluate_divergence(sp, F) if q % 2 else gen.evaluate_divergence(spacing=sp, field=F))
        ok = out == "ok" and np.asarray(y).shape == F0.shape[:3]
        scale = float(np.abs(F0).max()) / min(hh)
        ev.append(dict(a="div", h_=h, out=out, shape=ok, kind="field" if use else h["kind"], F=comps(F0), h=rs(hh), div=rows(y) if ok else [], exact=r(exact), tol="1e-9", intact=bool(np.array_equal(F, F0)) and list(sp) == s0,
                       atol=r((1e-5 if F0.dtype == np.float32 else 1e-12) * max(scale, 1e-12))))
        # refusals
        bad = [lambda: gen.evaluate_divergence(tuple(hh[:2]), F), lambda: gen.evaluate_divergence(hh + [1.], F), lambda: gen.evaluate_divergence(sp, F[..., :2]), lambda: gen.evaluate_divergence(sp, np.concatenate([F, F], -1)),
               lambda: gen.evaluate_divergence(sp, F[..., :1]), lambda: gen.evaluate_divergence((), F)][q % 6]
        out, _ = call(bad)
        ev.append(dict(a="bad", which=q % 6, out=out, intact=bool(np.array_equal(F, F0)) and list(sp) == s0))
        shp = tuple(int(x) for x in h["shape"])
        out, G = call(lambda: create_grid(sp, shp + (3,) * (q % 2)))
        ok = out == "ok" and len(G) == 3 and all(np.asarray(g).shape == shp for g in G)
        ev.append(dict(a="grid", h_=h, out=out, shape=ok, h=rs(hh), X=[rows(g) for g in G] if ok else []))
        out, G = call(lambda: format_wind_field(F))
        ok = out == "ok" and len(G) == 3
        e = dict(a="format", h_=h, out=out, three=ok, shape=ok and all(g.shape == F0.shape[:3] for g in G), F=comps(F0), G=[rows(g) for g in G] if ok else [], contig=ok and all(g.flags["C_CONTIGUOUS"] for g in G),
                 apart=ok and not any(np.shares_memory(g, F) for g in G) and not any(np.shares_memory(G[0], g) for g in G[1:]), intact=bool(np.array_equal(F, F0)))
        ev.append(e)
        if q % 5 == 0 and F0.shape[0] * F0.shape[1] * F0.shape[2] < 80:
            for cc in range(4):
                if cc:
                    out, fig = call(lambda: plot_velocity_components(tuple(hh), F))
                else:
                    out, fig = call(lambda: plot_velocity_magnitude(tuple(hh), F, transparent=bool(q % 2)))
                e = dict(a="plot", h_=h, out=out, c=cc, F=comps(F0), h=rs(hh), intact=bool(np.array_equal(F, F0)))
                if out == "ok":
                    d = fig.data[max(cc - 1, 0)] if len(fig.data) == (3 if cc else 1) else None
                    arr = [np.asarray(x, dtype=float).ravel() for x in (d.x, d.y, d.z, d.value)] if d is not None else []
                    e.update(shape=d is not None and all(a.size == arr[0].size for a in arr))
                    if e["shape"]:
                        e.update(xs=rs(arr[0]), ys=rs(arr[1]), zs=rs(arr[2]), vs=rs(arr[3]))
                ev.append(e)
    c.trace("GridOpsTrace", ev, ntraces=len(ev), what="grid helpers")
