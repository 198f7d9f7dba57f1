"""C32: a result is determined by the set-up and its seeds."""
import copy, itertools, random
import numpy as np
import aspsim.room.region as reg
import aspsim.room.generatepoints as gp
import aspsim.room.trajectory as tr
import aspsim.signal.sources as so
import aspsim.array as ar
import aspsim.diagnostics.diagnostics as dia
from aspsim.simulator import SimulatorSetup
from mc import simkit as sk, srckit
PROP = "C32"
TECH = "exhaustive enumeration of all interleavings of the operations of two random components, and of disturbances of the global random state between all operations, on the real components and on complete simulations; differential against each component alone, global random state compared"
BOUND = dict(quick="24 components with a given generator: all ordered pairs x all 20 interleavings of (create, draw, draw) twice; all placements of 6 disturbances before 4 operations of each; complete simulations under all pairs of disturbances",
             thorough="as quick with 4 operations each (70 interleavings) and all triples of disturbances")
CHUNK = 4

def components():
    C = {}
    C["white"] = lambda r: draw(so.WhiteNoiseSource(2, 0.7, r))
    C["white1"] = lambda r: draw(so.WhiteNoiseSource(1, 2, r))
    C["sine"] = lambda r: draw(so.SineSource(2, 0.7, 83.5, 1000, r))
    C["multi"] = lambda r: draw(so.MultiSineSource(1, 0.7, np.array([50.0, 120.5]), 1000, r))
    C["band"] = lambda r: draw(so.BandlimitedNoiseSource(2, 0.7, (150, 300), 1000, r))
    C["autocorr"] = lambda r: draw(so.AutocorrSource(2, srckit.autocorr(2), r))
    C["gold"] = lambda r: draw(so.GoldSequenceSource(2, 0.5, 5))
    C["mls"] = lambda r: draw(so.MLS(1, 4, None))
    C["seq"] = lambda r: draw(so.Sequence(srckit.table(2, 5)))
    C["array"] = lambda r: draw(so.SourceArray(lambda p: so.WhiteNoiseSource(1, p, r), 2, [1.0, 2.0]))
    for n, f in dict(cuboid=lambda r: reg.Cuboid((1, 2, 1.5), (0, 1, 0), (0.5, 0.5, 0.5), rng=r), rect3=lambda r: reg.Rectangle((1, 2), (0, 0, 1), (0.5, 0.5), 3, rng=r), rect2=lambda r: reg.Rectangle((1, 2), (0, 0), (0.5, 0.5), 2, rng=r),
                     disc3=lambda r: reg.Disc(1.0, (0, 0, 1), (0.5, 0.5), 3, rng=r), disc2=lambda r: reg.Disc(1.0, (0, 0), (0.5, 0.5), 2, rng=r), ball=lambda r: reg.Ball(1.0, (0, 0, 0), (0.5, 0.5, 0.5), rng=r),
                     cyl=lambda r: reg.Cylinder(1.0, 2.0, (0, 0, 0), (0.5, 0.5, 0.5), rng=r),
                     combined=lambda r: reg.CombinedRegion([reg.Cuboid((1, 1, 1), (0, 0, 0), (0.5, 0.5, 0.5), rng=np.random.default_rng(3)), reg.Ball(0.5, (4, 0, 0), (0.5, 0.5, 0.5), rng=np.random.default_rng(4))], rng=r)).items():
        C[n] = lambda r, f=f: sample(f(r))
    C["circle"] = lambda r: circle(r)
    C["region_array"] = lambda r: region_array(r)
    C["setup"] = lambda r: setup_rng(r)
    return C

def draw(s):
    yield None
    while True:
        yield np.array(s.get_samples(5), dtype=float)
def sample(region):
    yield None
    while True:
        yield np.array(region.sample_points(6), dtype=float)
def circle(r):
    yield None
    while True:
        yield np.array(gp.equiangular_circle(5, (0.5, 2.0), rng=r))
def region_array(r):
    a = ar.RegionArray("a", reg.Cuboid((1, 2, 1.5), (0, 1, 0), (0.5, 0.5, 0.5), rng=r))
    yield None
    while True:
        yield np.array(a.pos)
def setup_rng(r):
    s = SimulatorSetup(rng=r)
    sk.base_config(s, dict(tot=4, buf=4, chunk=4, reverb="none"))
    s.add_mics("m", np.zeros((1, 3)))
    yield None
    sim = s.create_simulator()
    while True:
        yield np.array(sim.rng.normal(size=3))

SEEDS = {}
def generator(name, which):
    return np.random.default_rng([99, which, sum(map(ord, name))])

_solo = {}
def solo(name, which, k):
    key = (name, which)
    if key not in _solo:
        g = components()[name](generator(name, which))
        _solo[key] = [next(g) for _ in range(6)]
    return _solo[key][:k]

def disturb(kind):
    if kind == "seed": np.random.seed(12345)
    elif kind == "draw": np.random.normal(size=7)
    elif kind == "pyseed": random.seed(3); random.random()
    elif kind == "other":
        w = so.WhiteNoiseSource(1, 1.0); w.get_samples(3); so.SineSource(1, 1.0, 10, 1000); so.BandlimitedNoiseSource(1, 1.0, (100, 200), 1000).get_samples(2)
    elif kind == "points":
        reg.Cuboid((1, 1, 1)).sample_points(3); gp.equiangular_circle(3, (1.0, 2.0)); reg.Ball(1.0, (0, 0, 0)).sample_points(2)
    elif kind == "sim":
        s = SimulatorSetup()
        sk.base_config(s, dict(tot=3, buf=4, chunk=4, reverb="random", irlen=3))
        s.add_free_source("s", np.zeros((1, 3)), so.WhiteNoiseSource(1, 1.0)); s.add_mics("m", np.ones((1, 3)))
        s.create_simulator().run_simulation()
DIST = ["seed", "draw", "pyseed", "other", "points", "sim"]

def cases(tier, seed):
    names = list(components())
    t = tier == "thorough"
    for a in names:
        for b in names:
            yield dict(kind="pair", a=a, b=b, n=4 if t else 3)
        yield dict(kind="disturb", a=a, n=4)
    for reverb in ("none", "direct", "ism", "set"):
        for bs in (0, 2):
            for moving in (False, True):
                if moving and reverb != "ism":
                    continue
                yield dict(kind="simulation", reverb=reverb, bs=bs, moving=moving, k=3 if t else 2)
    yield dict(kind="distinct")

def run_case(ctx, case):
    globals()["run_" + case["kind"]](ctx, case)

def run_pair(ctx, case):
    a, b, n = case["a"], case["b"], case["n"]
    want = {0: solo(a, 0, n), 1: solo(b, 1, n)}
    for first in itertools.combinations(range(2 * n), n):
        gens, got = {}, {0: [], 1: []}
        state = copy.deepcopy(np.random.get_state())
        for i in range(2 * n):
            who = 0 if i in first else 1
            if who not in gens:
                gens[who] = components()[(a, b)[who]](generator((a, b)[who], who))
            got[who].append(next(gens[who]))
            ctx.step()
        for who in (0, 1):
            for i, (x, y) in enumerate(zip(got[who], want[who])):
                if y is not None:
                    ctx.close(x, y, "depends-on-other", f"{(a, b)[who]} draw {i}, interleaved with {(a, b)[1 - who]} ({first})", tol=0)
        now = np.random.get_state()
        ctx.check(now[2] == state[2] and np.array_equal(now[1], state[1]), "global-state-used", f"{a}, {b}: numbers are drawn from the global generator although one was given")
        ctx.trace()
    ctx.state(a, b, *[x for x in want[0] if x is not None])

def run_disturb(ctx, case):
    a, n = case["a"], case["n"]
    want = solo(a, 0, n)
    # one kind of disturbance at every subset of places, and two different ones at all pairs of places
    plans = [{i: [k] for i in range(n) if m >> i & 1} for k in DIST for m in range(1, 1 << n)]
    plans += [{i: [k], j: [l]} if i != j else {i: [k, l]} for k, l in itertools.permutations(DIST, 2) for i in range(n) for j in range(i, n)]
    for plan in plans:
        g = None
        for i in range(n):
            for k in plan.get(i, []):
                disturb(k)
            if g is None:
                g = components()[a](generator(a, 0))
            x = next(g)
            ctx.step()
            if want[i] is not None:
                ctx.close(x, want[i], "depends-on-global-state", f"{a} draw {i} after {plan}", tol=0)
        ctx.trace()
    ctx.state(a, *[x for x in want if x is not None])

class Circle:
    def __call__(self, t):
        return np.array([[0.4 + 0.02 * t, 0.1, 0.2]])

def simulate(ctx, sc, sub, dist):
    base = ctx.dir / sub
    base.mkdir()
    def at(i):
        for k in dist.get(i, []):
            disturb(k)
    at(0)
    g = lambda k: np.random.default_rng(50 + k)
    setup = SimulatorSetup(base, rng=g(0))
    si = sk.base_config(setup, dict(tot=23, buf=8, chunk=5, reverb="none" if sc["reverb"] == "set" else sc["reverb"], irlen=9, plot_output="pdf", export_frequency=7, contrib=True))
    n = 2 if sc["reverb"] == "direct" else 1
    setup.add_free_source("a", tr.Trajectory(Circle()) if sc["moving"] else sk.positions(n, 0), so.WhiteNoiseSource(n, 0.5, g(1)))
    setup.add_free_source("b", sk.positions(n, 1), so.BandlimitedNoiseSource(n, 0.5, (100, 300), 1000, g(2)))
    setup.add_free_source("c", sk.positions(n, 2), so.SineSource(n, 0.5, 90, 1000, g(3)))
    setup.add_controllable_source("l0", sk.positions(n, 3))
    at(1)
    setup.add_mics("m0", sk.positions(n, 4))
    setup.add_mics("m1", reg.Cuboid((0.3, 0.3, 0.3), (1, 1, 0.5), (0.2, 0.2, 0.2), rng=g(4)).sample_points(n if sc["reverb"] == "direct" else 2))
    if sc["reverb"] == "set":
        for s in ("a", "b", "c", "l0"):
            setup.set_path(s, "m0", np.random.default_rng(ord(s[0])).normal(size=(1, 1, 4)))
    sim = setup.create_simulator()
    at(2)
    if sc["bs"]:
        sim.add_processor(sk.PlanProcessor(sim.sim_info, sim.arrays, sc["bs"], dict(ctrl=[n], mics=[n], feedback=True), dict(plan={"l0": g(5).normal(size=(n, 100))}), watch=True))
    for a in sim.arrays:
        sim.diag.add_diagnostic("rec_" + a.name, dia.RecordSignal(a.name, sim.sim_info, num_channels=a.num, export_func="npz"))
    at(3)
    sim.run_simulation()
    ctx.step(23)
    files = {f: v for f, v in sk.read_folder(sim.folder_path).items()}
    return dict(rec={a.name: np.array(sim.diag["rec_" + a.name].get_output()) for a in sim.arrays}, files=files, rng=sim.rng.normal(size=4),
                seen=sim.processors[0].seen if sc["bs"] else None, paths={(s.name, m.name): np.array(p) for s, m, p in sim.arrays.iter_paths()})

def run_simulation(ctx, case):
    ref = simulate(ctx, case, "ref", {})
    c = itertools.count()
    plans = [{i: list(k)} for i in range(4) for k in itertools.permutations(DIST, case["k"])] if not case["moving"] else [{i: [k]} for i in range(4) for k in DIST]
    plans = plans if case["reverb"] != "ism" or case["moving"] else plans[::3]
    for plan in plans + [{}]:
        got = simulate(ctx, case, f"r{next(c)}", plan)
        for k in ref:
            ctx.check(sk.same(got[k], ref[k], 0), "not-reproducible-" + k, f"{case}, after {plan}")
        ctx.trace()
    ctx.state(*ref["rec"].values())

def run_distinct(ctx, case):
    """different generators give different numbers, equal ones equal numbers"""
    for name in components():
        if name in ("gold", "mls", "seq", "region_array", "combined"):
            continue
        a, b, c = [components()[name](np.random.default_rng(k)) for k in (1, 2, 1)]
        for _ in range(2):
            x, y, z = next(a), next(b), next(c)
        ctx.step(3)
        ctx.check(not np.allclose(x, y), "seed-without-effect", name)
        ctx.close(z, x, "seed-not-reproducible", name, tol=0)
    # two regions made without a generator are not copies of each other
    for f in (lambda: reg.Cuboid((1, 2, 1.5)), lambda: reg.Ball(1.0, (0, 0, 0)), lambda: reg.Disc(1.0, (0, 0, 1)), lambda: reg.Rectangle((1, 2), (0, 0, 1)), lambda: reg.Cylinder(1.0, 2.0)):
        x, y = [f().sample_points(5) for _ in range(2)]
        ctx.check(not np.allclose(x, y), "same-without-seed", f().__class__.__name__)
        ctx.step(2)
    ctx.trace()
