"""Wind-field generators: scenarios of FieldGenSim replayed on real generators, recorded for FieldGenTrace."""
import itertools
from .api import *
from vlib import cover

MC_CFG = """SPECIFICATION Spec
CONSTANTS
 Gens = {{1,2}}
 Seeds = {{7,8}}
 NoSeed = 0
 Profiles = {{1,2}}
 Configs = {{1,2}}
 Nx <- MCNx
 Ext <- MCExt
 TwoD <- MCTwoD
 MaxN = {maxn}
 MaxBlocks = {maxb}
CONSTRAINT Bound
INVARIANTS SplitInvariant SeedFixes Overlap
PROPERTIES AppendOnly GlobUntouched
"""
TRACE_CONSTS = """NoSeed = 0
  Nx <- TNx
  Ext <- TExt
  TwoD <- TTwoD
  St0 <- MySt0
  Step <- MyStep
  Fail <- MyFail"""


def sim_cfg(ops, depth, gens=1, seeds=(1,), configs=1, profiles=3, maxn=3, total=6, bad=("type",), spec="KSpec"):
    q = lambda xs: "{" + ",".join('"%s"' % x for x in xs) + "}"
    return f"""SPECIFICATION {spec}
CONSTANTS
 Gens = {{{",".join(map(str, range(1, gens + 1)))}}}
 Seeds = {{{",".join(map(str, seeds))}}}
 NoSeed = 0
 Profiles = {{{",".join(map(str, range(1, profiles + 1)))}}}
 Configs = {{{",".join(map(str, range(1, configs + 1)))}}}
 Nx <- SNx
 Ext <- SExt
 TwoD <- STwoD
 MaxN = {maxn}
 MaxBlocks = 9
 Ops = {q(ops)}
 Depth = {depth}
 MaxTotal = {total}
 BadKinds = {q(bad)}
INVARIANT Emit
"""


LF1 = dict(sigma2=.6, L_2d=100., psi=.75, z_i=50., L1_factor=4, L2_factor=2, exp1=4, exp2=3)
LF2 = dict(sigma2=2., L_2d=60., psi=.4, z_i=30., L1_factor=2, L2_factor=.5, exp1=4, exp2=3)  # narrower and shorter than the 3D domain
SEEDS = {1: 7, 2: 0, 3: 2**32 - 1, 4: 123456789, 5: [3, 1, 4], 6: 1}
PROFILES = {1: dict(zref=20., uref=8., z0=.05, windprofiletype="LOG"),
            2: dict(zref=10., uref=5.5, z0=.3, windprofiletype="PL", plexp=.21),
            3: dict(zref=35., uref=.5, z0=2., windprofiletype="LOG", plexp=.4)}
BAD = dict(type=dict(windprofiletype="EXP"), zref0=dict(zref=0.), zrefneg=dict(zref=-3.), uref0=dict(uref=0), urefneg=dict(uref=-1.), z00=dict(z0=0.),
           z0neg=dict(z0=-.1), noexp=dict(windprofiletype="PL", plexp=None), lower=dict(windprofiletype="log"), empty=dict(windprofiletype=""))


def cfgs():
    c = lambda model, lv, dims, L, G, blend, lf=None, ustar=.6, zref=20., E=1.3: dict(model=model, lv=lv, dims=dims, L=L, G=G, blend=blend, lf=lf, ustar=ustar, zref=zref, E=E)
    return [c("Mann", (3, 2, 2), (90., 50., 50.), 8., .5, 3),
            c("Mann", (2, 3, 3), (60., 90., 45.), 12., 2., 0, LF1),
            c("VK", (3, 2, 3), (100., 30., 60.), 9., 1., 10),
            c("VK", (2, 2, 2), (40., 40., 40.), 15., .3, 1, LF2),
            c("DRD", (3, 2, 2), (64., 40., 40.), None, None, 2),
            c("DRD", (2, 2, 2), (50., 40., 30.), None, None, 5, LF1),
            c("Mann", (1, 1, 1), (30., 20., 20.), 9., .4, 2),
            c("VK", (1, 2, 1), (20., 40., 10.), 3., .5, 4, LF1),
            c("Mann", (2, 1, 2), (40., 20., 35.), 7., .3, 14)]


_drd = {}


def drd_file(scratch, L=.61, G=.45, S=2.1, seed=5, hidden=4):
    """A small saved DRD model (written by the code under test)."""
    key = (L, G, S, seed, hidden)
    if key not in _drd:
        import os
        with quiet():
            st = torch.get_rng_state()
            torch.manual_seed(seed)
            pb = D.CalibrationProblem(nn_params=D.NNParameters(nlayers=2, hidden_layer_size=hidden), prob_params=D.ProblemParameters(),
                                      loss_params=D.LossParameters(), phys_params=D.PhysicalParameters(L=1.6 * L, Gamma=.7 * G, sigma=1.9 * S, domain=torch.logspace(-1, 2, 10)),
                                      integration_params=D.IntegrationParameters(), logging_directory=scratch + "/tb", output_directory=scratch)
            v = pb.parameters.copy()
            v[:3] = np.log([L, G, S])     # the vector decides, not the initial values
            v[3:] += .2 * np.random.RandomState(seed).randn(len(v) - 3)
            pb.parameters = v
            d = os.path.join(scratch, "drd%d" % len(_drd))
            os.makedirs(d)
            pb.save_model(d)
            torch.set_rng_state(st)
        _drd[key] = os.path.join(d, os.listdir(d)[0])
    return _drd[key]


def build(c, seed, scratch):
    kw = dict(seed=seed, blend_num=c["blend"], config_2d_model=dict(c["lf"]) if c["lf"] else None)
    dims, lv = np.array(c["dims"]), np.array(c["lv"])
    if c["model"] == "DRD":
        return FFG(c["ustar"], c["zref"], dims, lv, "DRD", path_to_parameters=drd_file(scratch), **kw)
    return FFG(c["ustar"], c["zref"], dims, lv, c["model"], c["L"], c["G"], c["E"], **kw)


def nblk(c):
    return tuple(2 ** x + 1 for x in c["lv"])


TOL = 2e-4  # single-precision FFT plans may differ from run to run


def close(a, b):
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and float(np.abs(a - b).max()) <= TOL * max(1., float(np.abs(b).max()))


class Library:
    """Reference blocks: for (configuration, seed, profile), one call for B blocks on a generator that is alone in a pristine process."""

    def __init__(self, scratch, B):
        self.scratch, self.B, self.lib = scratch, B, {}

    def get(self, ci, c, s, p):
        k = (ci, s, p)
        if k not in self.lib:
            def run():
                g = build(c, SEEDS[s], self.scratch)
                return np.asarray(g.generate(self.B, **PROFILES[p]))
            with quiet():
                o, v = in_child(run)
            n = nblk(c)[0]
            if o != "ok" or v.shape[0] != n * self.B:
                self.lib[k] = []
            else:
                self.lib[k] = [v[i * n:(i + 1) * n] for i in range(self.B)]
        return self.lib[k]

    def label(self, ci, c, s, blk, hint):
        """Identify a block: the expected reference first, then every other one of this configuration."""
        cand = [hint] + [(s2, b, p) for s2 in dict.fromkeys([s] + [k[1] for k in self.lib if k[0] == ci]) if s2 for p in PROFILES
                         for b in range(self.B) if (ci, s2, p) in self.lib or s2 == s]
        for s2, b, p in cand:
            if s2 == 0:
                continue
            ref = self.get(ci, c, s2, p)
            if b < len(ref) and close(blk, ref[b]):
                return dict(k="ref", s=s2, b=b, p=p)
        return dict(k="unknown", s=0, b=0, p=0)


class Gen:
    """A real generator with what is needed to observe it."""

    def __init__(self, ci, c, s):
        self.ci, self.c, self.s = ci, c, s
        self.obj = None
        self.kept = []      # results returned earlier, with their digests
        self.last = None    # copy of the exposed field
        self.exp = []       # expected (block, profile), a hint for the identification only

    def exposed(self):
        return np.asarray(self.obj.total_fluctuation)


def replay(h, cf, lib, scratch, ev):
    """Run one scenario; append its events."""
    ev.append(dict(a="reset"))
    gens = {}
    for o in h:
        n0, t0 = np_rng(), torch_rng()
        if o["op"] == "draw":
            np.random.normal(size=3), torch.rand(2)
            continue
        if o["op"] == "gseed":
            np.random.seed(o["s"]), torch.manual_seed(o["s"])
            continue
        if o["op"] == "new":
            ci = (o["c"] - 1) % len(cf)
            G = gens[o["g"]] = Gen(ci, cf[ci], o["s"])
            out, G.obj = call(build, G.c, SEEDS[o["s"]] if o["s"] else None, scratch)
            if out != "ok":
                G.obj = None
            else:
                G.last = G.exposed().copy()
            ev.append(dict(a="new", g=o["g"], c=ci, s=o["s"], out=out, twod=G.c["lf"] is not None, drd=G.c["model"] == "DRD", nx=nblk(G.c)[0],
                           npsame=np_rng() == n0, tsame=torch_rng() == t0))
            continue
        G = gens.get(o["g"])
        if G is None or G.obj is None:
            continue
        if o["op"] == "gen":
            out, val = call(G.obj.generate, o["n"], **PROFILES[o["p"]])
        elif o["op"] == "rej":
            kw = dict(PROFILES[1 + len(G.exp) % 2])
            kw.update(BAD[o["k"]])
            out, val = call(G.obj.generate, o["n"], **kw)
        else:
            out, val = call(inspect, G, len(G.kept))
        e = dict(a=o["op"], g=o["g"], out=out, npsame=np_rng() == n0, tsame=torch_rng() == t0)
        cur = G.exposed()
        e["prefix"] = bool(cur.shape[0] >= G.last.shape[0] and np.array_equal(cur[:G.last.shape[0]], G.last))
        e["older"] = all(digest(a) == d for a, d in G.kept)
        if o["op"] == "gen":
            e.update(n=o["n"], p=o["p"])
            if out == "ok":
                nx, ny, nz = nblk(G.c)
                val = np.asarray(val)
                G.exp += [o["p"]] * o["n"]
                e["expsame"] = bool(np.array_equal(val, cur))
                e["shapeok"] = val.ndim == 4 and val.shape[1:] == (ny, nz, 3)
                e["rows"], e["nx"] = int(val.shape[0]), nx
                e["blocks"] = []
                for i in range(len(G.exp)):
                    blk = val[i * nx:(i + 1) * nx]
                    if blk.shape == (nx, ny, nz, 3):
                        e["blocks"].append(lib.label(G.ci, G.c, G.s, blk, (G.s, i, G.exp[i])))
                G.kept.append((val, digest(val)))
        else:
            e["expsame"] = bool(np.array_equal(cur, G.last))
        if o["op"] == "rej":
            e["k"] = o["k"]
        G.last = cur.copy()
        ev.append(e)
    return gens


def inspect(G, i):
    """Read-only uses of a generator."""
    g, c = G.obj, G.c
    sp = np.array(c["dims"]) / np.array(nblk(c))
    if G.last.shape[0] > 1:
        g.evaluate_divergence(sp)
    g.log_law(np.linspace(0, 50, 5), .1, 10., 5.)
    g.power_law(np.linspace(0, 50, 5), 10., 5., .2)
    D.format_wind_field(g.total_fluctuation)
    if G.last.shape[0] > 1:
        import os
        g.save_to_vtk(os.path.abspath("vtk_out"))


def C01(c):
    c.model("FieldGenMC", MC_CFG.format(maxn=2, maxb=c.n(2, 4)))
    cf = cfgs() if c.thorough else cfgs()[:6] + [cfgs()[6 + c.seed % 2]]
    lib = Library(c.scratch, c.n(7, 13))
    # all short call sequences (a generator is built first), then random long ones
    short = c.scenarios("FieldGenSim", sim_cfg(["new", "gen"], 4, profiles=2, maxn=2, total=6, spec="SSpec"))
    short = [h for h in short if h[0]["op"] == "new" and h[0]["s"] == 1]
    long = c.scenarios("FieldGenSim", sim_cfg(["new", "gen", "insp"], c.n(6, 9), profiles=3, maxn=4, total=c.n(7, 13)), num=c.n(400, 2000), depth=40)
    long = cover.choose(c, long, cover.chains(lambda o: o["op"] + str(o.get("n", "")), lambda o: dict(g=o.get("g"), p=o.get("p")), 4), c.n(110, 500))
    ev, k = [], 0
    jobs = [(ci, h) for i, h in enumerate(long) for ci in range(len(cf)) if i % len(cf) == ci or (c.thorough and i % 4 == 0)]
    jobs += [(ci, h) for ci in range(len(cf)) for i, h in enumerate(short) if i % len(cf) == ci or c.thorough]
    for ci, h in c.timely(jobs):
        h = [dict(o, c=ci + 1, s=1 + (ci % 3)) if o["op"] == "new" else o for o in h]
        replay(h, cf, lib, c.scratch, ev)
        k += 1
    # one long run of single-block calls per configuration
    for ci in c.timely(range(len(cf))):
        h = [dict(op="new", g=1, c=ci + 1, s=1 + (ci % 3))] + [dict(op="gen", g=1, n=1, p=1 + j % 3) for j in range(lib.B)]
        replay(h, cf, lib, c.scratch, ev)
        k += 1
    # many blocks, in calls of very different sizes, on the smallest configurations
    far = Library(c.scratch, c.n(41, 90))
    small = cfgs()[6:]
    for ci in c.timely(range(len(small))):
        sizes = [1, 12, 0, 1, 1, 7, 2, 0, 16, 1] if ci else [25, 1, 1, 0, 3, 1, 9, 1]
        h = [dict(op="new", g=1, c=ci + 1, s=2 + ci)] + [dict(op="gen", g=1, n=n, p=1 + j % 3) for j, n in enumerate(sizes + c.n([], [30, 1, 18]))]
        ev.append(dict(a="reset"))
        replay(h, small, far, c.scratch, ev)
        k += 1
    c.trace("FieldGenTrace", ev, ntraces=k, consts=TRACE_CONSTS, what="replayed call sequences")
    c.cov["rule"] = "all call sequences of length 3 over n in 0..2 and two profiles, random longer ones, spread over configurations (models VK/Mann/DRD, blends 0..10, with and without low-frequency field)"


same_gen = cover.chains(lambda o: o["op"] + str(o.get("n", "") if o["op"] == "gen" else bool(o.get("s")) if o["op"] == "new" else ""), lambda o: dict(g=o.get("g"), s=o.get("s") if o["op"] == "new" else None), 3)


def C02(c):
    c.model("FieldGenMC", MC_CFG.format(maxn=2, maxb=c.n(2, 3)))
    cf = cfgs()
    lib = Library(c.scratch, 5)
    ev, k = [], 0
    hs = c.scenarios("FieldGenSim", sim_cfg(["new", "gen", "draw", "gseed"], c.n(12, 16), gens=3, seeds=range(1, 7), configs=len(cf), profiles=2, maxn=2, total=5), num=c.n(400, 2000), depth=60)
    hs = cover.choose(c, hs, same_gen, c.n(60, 500))
    # same seed and configuration twice or three times, in every order the model gives
    tw = c.scenarios("FieldGenSim", sim_cfg(["new", "gen", "draw", "gseed"], 11, gens=3, seeds=(1, 2), configs=1, profiles=1, maxn=2, total=4), num=c.n(300, 1500), depth=60)
    tw = cover.choose(c, tw, same_gen, c.n(48, 300), name="twin_patterns")
    for i, h in enumerate(tw):
        hs.append([dict(o, c=1 + (i // 2) % len(cf), s=o["s"] and (1 + (i + o["s"]) % 6)) if o["op"] == "new" else o for o in h])
    for h in c.timely(hs):
        gens = replay(h, cf, lib, c.scratch, ev)
        k += 1
        live = [g for g in gens.values() if g.obj is not None and len(g.exp)]
        for x, y in itertools.combinations(live, 2):
            if x.ci == y.ci:
                n = nblk(x.c)[0]
                # first blocks without their profile, so that only the fluctuation is compared
                u, v = x.last[:n, ..., 1:], y.last[:n, ..., 1:]
                same = close(u, v)
                ev.append(dict(a="equal" if x.s and x.s == y.s else "distinct", same=same, c=x.ci, s1=x.s, s2=y.s))
    # seeds that agree in their low or high bits, lists that agree in their head or as sets, the same number as another type
    some = [7, 7 + 2**8, 7 + 2**16, 7 + 2**31, 2**32 - 1, 0, [3, 1, 4], [3, 1, 5], [1, 3, 4], 31, 3, None]
    again = [np.int64(7), np.uint32(2**32 - 1), (3, 1, 4), np.array([3, 1, 4]), 7, 0]
    for ci in c.timely([1, 2, 5, 6] + c.n([], [0, 3, 4, 7])):
        def parts(seed):
            g = build(cf[ci], seed, c.scratch)
            u = np.asarray(g.generate(1, **PROFILES[1])).copy()
            low = g.low_freq_gen
            if low is None:
                return [u]
            return [u, np.asarray(low.u1).copy(), np.asarray(low.u2).copy()]
        got = [(repr(x), np.ravel(x).tolist(), *call(parts, x)) for x in some + again]
        for (n1, x, o1, a), (n2, y, o2, b) in itertools.combinations(got, 2):
            kind = "equal" if x == y and n1 != "None" else "distinct"
            if o1 == o2 == "ok":
                for u, v in zip(a, b):
                    ev.append(dict(a=kind, same=close(u, v), c=ci, s1=n1, s2=n2))
            else:
                ev.append(dict(a="equal", same=False, c=ci, s1=n1 + " " + o1, s2=n2 + " " + o2))
        k += 1
    c.trace("FieldGenTrace", ev, ntraces=k, consts=TRACE_CONSTS, what="interleaved generators")
    c.cov["rule"] = "random interleavings of construction, generation and global random draws over up to three generators; seeds 0, 2^32-1, arrays; references from generators alone in a pristine process"


def C05(c):
    c.model("FieldGenMC", MC_CFG.format(maxn=2, maxb=c.n(2, 3)))
    cf = cfgs()[:c.n(6, 8)]
    lib = Library(c.scratch, 6)
    ev, k = [], 0
    kinds = sorted(BAD)
    # every kind of bad call, before the first block and between blocks, on every configuration
    for ci in c.timely(range(len(cf))):
        for j, b in enumerate(kinds):
            if not c.thorough and (ci + j) % 2 and ci > 1:
                continue
            for pos in range(3):
                h = [dict(op="new", g=1, c=ci + 1, s=1 + ci % 4)]
                for q in range(3):
                    if q == pos:
                        h += [dict(op="rej", g=1, k=b, n=1 + (j + q) % 3)]
                    h += [dict(op="gen", g=1, n=1, p=1 + (q + j) % 3)]
                replay(h, cf, lib, c.scratch, ev)
                k += 1
    hs = c.scenarios("FieldGenSim", sim_cfg(["new", "gen", "rej", "insp"], c.n(8, 12), gens=2, seeds=(1, 2, 3), configs=len(cf), profiles=3, maxn=2, total=6, bad=kinds), num=c.n(300, 2000), depth=60)
    hs = cover.choose(c, hs, cover.chains(lambda o: o["op"] + str(o.get("k", "")), lambda o: dict(g=o.get("g")), 3), c.n(70, 500))
    for h in c.timely(hs):
        replay(h, cf, lib, c.scratch, ev)
        k += 1
    ev += requests(c)
    c.trace("FieldGenTrace", ev, ntraces=k, consts=TRACE_CONSTS, what="refused calls")
    c.cov["rule"] = "every kind of inadmissible argument at every position of a three-block history, and random histories with refused calls"


def requests(c):
    """Requests of all kinds, each followed by a block."""
    pick = "SPECIFICATION PSpec\nCONSTANTS\n Fields <- MyFields\n Derive <- MyDerive\nINVARIANT Emit\n"
    hs = list({repr(h): h for h in c.scenarios("RequestSim", pick, num=c.n(2500, 12000), depth=20)}.values())
    # a logarithmic law with z0 = zref is not defined
    hs = [h for h in hs if not (h["type"] == "LOG" and float(h["zref"]) == float(h["z0"]))]
    rng = np.random.RandomState(c.seed)
    good = cover.order([h for h in hs if h["ok"]], rng, c=c)
    # refusals that hang on one argument
    wrong = lambda h: (h["type"] not in ("LOG", "PL")) + sum(float(h[k]) <= 0 for k in ("zref", "uref", "z0")) + (h["type"] == "PL" and h["exp"] == "none")
    one = cover.order([h for h in hs if wrong(h) == 1], rng, c=c)
    more = cover.order([h for h in hs if wrong(h) > 1], rng, c=c)
    cf = cfgs()
    ev = [dict(a="reset")]
    ref = {}
    end = dict(PROFILES[2])
    for q, h in enumerate(c.timely(good[:c.n(60, 500)] + one[:c.n(70, 600)] + more[:c.n(20, 200)])):
        ci = (6, 7, 3)[q % 3]
        num = lambda x: int(float(x)) if h["ints"] and float(x) == int(float(x)) else float(x)
        kw = dict(zref=num(h["zref"]), uref=num(h["uref"]), z0=num(h["z0"]), windprofiletype=h["type"], plexp=None if h["exp"] == "none" else num(h["exp"]))
        def run():
            g = build(cf[ci], 3, c.scratch)
            if h["before"]:
                g.generate(1, **PROFILES[1])
            f0 = np.array(g.total_fluctuation)
            out, _ = call(g.generate, h["n"], **kw)
            f1 = np.array(g.total_fluctuation)
            return out, f1.shape[0], f0.shape == f1.shape and np.array_equal(f0, f1), np.array(g.generate(1, **end))
        o, v = call(run)
        if o != "ok":
            ev.append(dict(a="request", q=h, out=o, rows=0, nx=1, same=False, later=False))
            continue
        out, rows_, same, u = v
        nx = nblk(cf[ci])[0]
        b = h["before"] + (h["n"] if out == "ok" else 0)
        if (ci, b) not in ref:
            with quiet():
                g = build(cf[ci], 3, c.scratch)
                if b:
                    g.generate(b, **PROFILES[1])
                ref[ci, b] = np.array(g.generate(1, **end))[-nx:]
        ev.append(dict(a="request", q=h, out=out, rows=rows_, nx=nx, same=bool(same), later=bool(u.shape[0] == nx * (b + 1) and close(u[-nx:], ref[ci, b]))))
    return ev
