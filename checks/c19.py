"""C19: moving arrays are simulated with the position of the current sample."""
import itertools
import numpy as np
import aspsim.room.trajectory as tr
from aspsim.simulator import SimulatorSetup
from mc import simkit as sk, rirref
from checks import c18
LIGHT = True      # figures are not looked at
PROP = "C19"
TECH = "exhaustive enumeration of which arrays move, update intervals, buffer/chunk/block lengths, start modes and propagation types on the real simulator; every recorded sample of every signal and contribution compared with a time-varying convolution using pyroomacoustics responses of each pair at the positions of that sample"
BOUND = dict(quick="one or two free sources, one loudspeaker, two microphone arrays (1 and 2 channels): all 16 subsets of moving arrays x update intervals 1,2,3,5 x 4 buffer/chunk pairs x blocks 0..3 x both start modes, 19 samples; all assignments of {room, set, none, random, direct} to two pairs; 6 trajectory kinds",
             thorough="update intervals 1..8, 8 buffer/chunk pairs, blocks 0..4, 41 samples, all assignments of 4 types to all pairs, reverberant rooms")
CHUNK = 2

def P(name, k, t):
    """position of element k of an array at sample t: different for every element, irregular in time"""
    i = {"s0": 0, "s1": 1, "l0": 2, "m0": 3, "m1": 4}[name]
    base = np.array([-1.2 + 0.5 * i + 0.21 * k, 0.9 - 0.4 * i + 0.13 * k * k, -0.3 + 0.17 * i - 0.1 * k])
    return base + 0.06 * np.array([np.sin(1.0 * t + i), (t % 7) / 3 - t / 30.0, ((t * t) % 5) / 4 + 0.2 * k * (t % 3)]) - 0.06 * np.array([np.sin(i), 0, 0])

TRAJ = ["func", "collection", "linear", "circle", "time", "constant", "creep", "pause", "jump"]
def position(name, n, kind, t):
    if kind == "func" or kind == "collection":
        return np.array([P(name, k, t) for k in range(n)])
    if kind == "creep":         # micrometres per sample: small steps that add up
        return np.array([P(name, k, 0) + 2e-5 * t * np.array([1, -0.5, 0.25]) for k in range(n)])
    if kind == "pause":         # moves, rests and moves back
        return np.array([P(name, k, 0) + 0.05 * np.array([max(0, 3 - abs((t % 12) - 3)), 0, 0]) for k in range(n)])
    if kind == "jump":          # rests, and only one element moves at a time
        return np.array([P(name, k, 0) + 0.3 * ((t // 6 + k) % 3 == 1) for k in range(n)])
    if kind == "constant" or kind is None:
        return np.array([P(name, k, 0) for k in range(n)])
    out = []
    for k in range(n):
        p = [P(name, k, 0), P(name, k, 3), P(name, k, 5) + 0.2]
        if kind == "linear": out.append(c18.walk(p, np.array([(t / 15) % 1]), "constant_speed")[0])
        if kind == "time": out.append(c18.walk(p, np.array([(t / 15) % 1]), "constant_time")[0])
        if kind == "circle": out.append(c18.circle(np.array([t]), (0.1, 0.4), P(name, k, 0), 0.013, 0.017, 1000, 0.3)[0])
    return np.array(out)

def trajectory(name, n, kind):
    if kind in ("func", "constant", "creep", "pause", "jump"):
        return tr.Trajectory(lambda t: position(name, n, kind, t))
    parts = []
    for k in range(n):
        p = [P(name, k, 0), P(name, k, 3), P(name, k, 5) + 0.2]
        if kind == "collection": parts.append(tr.Trajectory(lambda t, k=k: P(name, k, t)[None]))
        if kind == "linear": parts.append(tr.LinearTrajectory(p, 0.015, 1000))
        if kind == "time": parts.append(tr.LinearTrajectory(p, 0.015, 1000, "constant_time"))
        if kind == "circle": parts.append(tr.CircularTrajectory((0.1, 0.4), P(name, k, 0), 0.013, 0.017, 1000, 0.3))
    return parts[0] if n == 1 else tr.TrajectoryCollection(parts)

BUFS = [(6, 4), (9, 5), (24, 30), (7, 8), (12, 6), (6, 17), (31, 6), (8, 8)]
def cases(tier, seed):
    t = tier == "thorough"
    names = ["s0", "l0", "m0", "m1"]
    subsets = [list(c) for k in range(5) for c in itertools.combinations(names, k)]
    tot = 41 if t else 19
    for mv in subsets:
        for auf in (range(1, 9) if t else (1, 2, 3, 5)):
            for bi, (buf, chunk) in enumerate(BUFS if t else BUFS[:4]):
                for bs in ((0, 1, 2, 3, 4) if t else (0, 1, 2, 3)):
                    for start0 in (False, True):
                        if bs and (buf < 2 * bs or chunk < bs) or (not t and (bi + bs + auf + start0) % 2 and bs):
                            continue
                        yield dict(free=[1], ctrl=[1], mics=[1, 2], moving=mv, traj="func", auf=auf, buf=buf, chunk=chunk, bs=bs, start0=start0, tot=tot, contrib=True, feedback=True, types={}, rt60=0)
    for kind in TRAJ:
        for mv in subsets[1:] if t else [["s0"], ["m1"], ["l0", "m0"], names]:
            for auf in (1, 4):
                yield dict(free=[1], ctrl=[1], mics=[1, 2], moving=mv, traj=kind, auf=auf, buf=9, chunk=6, bs=2, start0=True, tot=33, contrib=True, feedback=True, types={}, rt60=0)
    # slow movement over more samples: the paths follow to well below the movement of one sample
    for mv in (["s0"], ["m1"], ["l0"], names):
        for auf in (1, 7):
            yield dict(free=[1], ctrl=[1], mics=[1, 2], moving=mv, traj="creep", auf=auf, buf=30, chunk=25, bs=2, start0=False, tot=97, contrib=True, feedback=False, types={}, rt60=0)
    # arrays added in every order, all subsets of moving arrays
    for order in itertools.permutations(names):
        for mv in subsets[1:]:
            if t or len(mv) > 1:
                yield dict(free=[1], ctrl=[1], mics=[1, 2], moving=mv, traj="func", auf=1, buf=9, chunk=6, bs=2, start0=False, tot=11, contrib=False, feedback=False, types={}, rt60=0, order=list(order))
    # propagation types of the pairs
    pairs = ["s0~m0", "s0~m1", "l0~m0", "l0~m1"]
    kinds = ["ism", "set", "none", "random", "direct"]
    mvs = [["s0"], ["m0"], ["m1"], ["s0", "l0", "m0", "m1"]]
    for mv in mvs if not t else subsets[1:]:
        for combo in (itertools.product(kinds[:4], repeat=4) if t else itertools.product(kinds, repeat=2)):
            ty = dict(zip(pairs, combo)) if t else {pairs[0]: combo[0], pairs[1]: combo[1] if combo[1] != "direct" else "set", pairs[2]: combo[1], pairs[3]: "ism"}
            yield dict(free=[1], ctrl=[1], mics=[1, 2], moving=mv, traj="func", auf=2 if "random" in combo else 1, buf=9, chunk=6, bs=2, start0=False, tot=17, contrib=False, feedback=False, types=ty, rt60=0)
    # several sources, no source, other room settings
    for free, ctrl, mics in (([2, 1], [], [2]), ([2, 1], [1], [1]), ([], [1], [1, 2]), ([], [], [1]), ([], [], [2, 1]), ([1], [], []), ([2], [1], [0]), ([0], [1], [1]), ([1], [0], [1])):
        for mv in (["s0"], ["s1"], ["l0"], ["m0"], ["s0", "s1", "l0", "m0", "m1"]):
            for bs in (0, 2):
                yield dict(free=free, ctrl=ctrl, mics=mics, moving=mv, traj="func", auf=1, buf=9, chunk=6, bs=bs if ctrl else 0, start0=True, tot=17, contrib=True, feedback=False, types={}, rt60=0)
    for extra in (dict(rt60=0.15, tot=9), dict(highpass=60, tot=9), dict(irlen=1), dict(irlen=40), dict(xd=6)) + ((dict(rt60=0.2, tot=30), dict(rt60=0.15, highpass=90, tot=9)) if t else ()):
        for mv in (["s0"], ["m1"], ["s0", "l0", "m0", "m1"]):
            yield {**dict(free=[1], ctrl=[1], mics=[1, 2], moving=mv, traj="func", auf=1, buf=9, chunk=6, bs=1, start0=True, tot=17, contrib=True, feedback=False, types={}, rt60=0), **extra}

class Moving:
    """every signal for g0 <= g < tot, sample by sample"""
    def __init__(self, sc, d, si, static):
        free, ctrl, mics = sk.names(sc)
        self.kind = lambda n: sc["traj"] if n in sc["moving"] else None
        buf, tot, B = sc["buf"], sc["tot"], sc.get("bs") or 0
        g0 = -(buf - 1) if sc["start0"] else 0
        off = -g0
        G = tot + max(B, 1)
        sig = {s: d["x"][s][:, :G + off].copy() for s in free}
        sig.update({l: np.zeros((n, G + off + 2 * B + 2)) for l, n in ctrl.items()})
        sig.update({m: np.zeros((n, G + off)) for m, n in mics.items()})
        con = {f"{s}~{m}": np.zeros((n, G + off)) for s in {**free, **ctrl} for m, n in mics.items()}
        calls = 0
        num = {**free, **ctrl, **mics}
        for g in range(g0, G):
            at = max(0, g) // sc["auf"] * sc["auf"]
            t = g + off
            for s in {**free, **ctrl}:
                for m in mics:
                    h = static.get((s, m))
                    if h is None:
                        if not num[s] or not num[m]:
                            continue
                        h = rirref.highpass(rirref.ism(position(s, num[s], self.kind(s), at), position(m, num[m], self.kind(m), at), si), si.samplerate, si.highpass_cutoff)
                    K = min(h.shape[2], t + 1)
                    v = np.einsum("ik,ijk->j", sig[s][:, t - K + 1:t + 1][:, ::-1], h[:, :, :K])
                    con[f"{s}~{m}"][:, t] = v
                    sig[m][:, t] += v
            if B and g >= 0 and g % B == B - 1:
                calls += 1
                for l in ctrl:
                    sig[l][:, t + 1:t + 1 + B] += sk.plan_block(sc, d, l, calls, B, {m: sig[m][:, t - B + 1:t + 1] for m in mics})[:, :max(0, sig[l].shape[1] - t - 1)]
        self.sig = {**sig, **con}
        self.off = off

def run_case(ctx, case):
    sc = case
    topo = [sc["free"], sc["ctrl"], sc["mics"]]
    free, ctrl, mics = sk.names(sc)
    rng = ctx.rng(topo)
    d = dict(h={}, x={s: rng.normal(size=(n, 400)) for s, n in free.items()}, plan={l: rng.normal(size=(n, 600)) for l, n in ctrl.items()})
    def make(moving):
        setup = SimulatorSetup()
        si = sk.base_config(setup, dict(sc, reverb="ism", irlen=sc.get("irlen", 12)))
        si.highpass_cutoff = sc.get("highpass", 0)
        kind = lambda n: sc["traj"] if n in moving else None
        adders = {"s": lambda n, p: setup.add_free_source(n, p, sk.TableSource(d["x"][n])), "l": setup.add_controllable_source, "m": setup.add_mics}
        num = {**free, **ctrl, **mics}
        for n in sc.get("order") or list(num):
            c = num[n]
            adders[n[0]](n, trajectory(n, c, kind(n)) if kind(n) and c else position(n, c, None, 0).reshape(c, 3))
        r2 = ctx.rng("paths")
        for pair, ty in sc["types"].items():
            s, m = pair.split("~")
            if ty == "set":
                setup.set_path(s, m, r2.normal(size=(setup.arrays[s].num, setup.arrays[m].num, 5)))
            else:
                setup.arrays.path_type[s][m] = ty
        return setup
    setup = make(sc["moving"])
    sim = setup.create_simulator()
    static = {}
    for pair, ty in sc["types"].items():
        s, m = pair.split("~")
        if ty != "ism":
            static[s, m] = np.array(sim.arrays.paths[s][m])
            if ty == "direct": ctx.close(static[s, m], np.eye(static[s, m].shape[0])[:, :, None], "direct", "direct path")
            if ty == "none": ctx.check(not static[s, m].any(), "none", "none path")
            if ty == "set": ctx.close(static[s, m], setup.arrays.paths[s][m], "set", "set path", tol=0)
    proc = None
    if sc.get("bs"):
        proc = sk.PlanProcessor(sim.sim_info, sim.arrays, sc["bs"], sc, d, watch=False)
        sim.add_processor(proc)
    sk.record_all(sim, sc)
    sim.run_simulation()
    ctx.step(sc["tot"])
    ref = Moving(sc, d, sim.sim_info, static)
    for n in ref.sig:
        if "~" in n and not sc["contrib"]:
            continue
        got = np.array(sim.diag.diagnostics["rec_" + n].get_output())[:, :sc["tot"]]
        ctx.close(got, ref.sig[n][:, ref.off:ref.off + sc["tot"]], "contribution" if "~" in n else "signal", n, tol=1e-7)
        ctx.states_of(np.round(got.T, 9))
    for (s, m), h in static.items():
        ctx.close(sim.arrays.paths[s][m], h, "static", f"{s}~{m} ({sc['types'][s + '~' + m]}) changed", tol=0)
    for n in {**free, **ctrl, **mics}:
        if n not in sc["moving"]:
            ctx.close(sim.arrays[n].pos, setup.arrays[n].pos, "static-pos", n, tol=0)
    if sc["traj"] == "constant":
        other = make([]).create_simulator()
        if proc is not None:
            other.add_processor(sk.PlanProcessor(other.sim_info, other.arrays, sc["bs"], sc, d, watch=False))
        sk.record_all(other, sc)
        other.run_simulation()
        for n in ref.sig:
            ctx.close(sim.diag.diagnostics["rec_" + n].get_output(), other.diag.diagnostics["rec_" + n].get_output(), "constant", f"{n}: not as without moving", tol=1e-9)
    ctx.trace()
