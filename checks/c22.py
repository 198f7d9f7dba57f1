"""C22: room impulse responses match the room, whatever is computed together."""
import itertools
import numpy as np
from aspsim.simulator import SimulatorSetup
from aspsim.room.roomimpulseresponse import ir_room_image_source_3d
from mc import simkit as sk, rirref
LIGHT = True      # figures are not looked at
PROP = "C22"
TECH = "exhaustive enumeration on the real path generation: all ordered subsets of positions, all splits into arrays and groups, all truncation lengths, batch sizes and room placements under a set of room configurations; every pair compared with the image-source library run for that pair alone and, without reflections, with the closed-form direct path"
BOUND = dict(quick="10 configurations x all ordered subsets of <=3 of 4 microphones x <=2 of 3 sources; all compositions of 4 microphones x 3 sources into arrays and groups; lengths 1..60; 1 to 1001 microphones; 12 room placements; all integer delays to 20 samples x 4 extra delays; all 5^3 directivities of 3 microphones",
             thorough="24 configurations, ordered subsets of <=4 microphones x <=3 sources; lengths 1..400")
CHUNK = 1
SRC = [[0.5, -0.4, 0.1], [-1.1, 0.7, -0.6], [1.4, 1.2, 0.9]]
MIC = [[0.1, 0.2, 0.3], [-0.7, -1.3, 0.2], [1.2, -0.9, -0.8], [0.55, -0.35, 0.1]]
BASE = dict(rt60=0.0, c=343, sr=1000, irlen=60, xd=2, size=[4.0, 4.0, 3.0], center=[0.0, 0.0, 0.0], hp=0)
CFG = [dict(), dict(rt60=0.15), dict(rt60=0.15, c=300.0), dict(irlen=7), dict(rt60=0.12, irlen=300, xd=40), dict(hp=20, rt60=0.15), dict(size=(3.5, 4.5, 2.2), center=(0.2, -0.5, 0.1), rt60=0.1),
       dict(xd=1), dict(sr=2000, xd=5), dict(c=250.5, xd=10, sr=4000, irlen=200), dict(rt60=0.2, size=[6, 5, 4]), dict(irlen=1), dict(hp=100), dict(rt60=0.15, xd=20, sr=1500), dict(sr=8000, irlen=400), dict(rt60=0.3),
       dict(hp=50, sr=4000, irlen=150), dict(center=[0.3, 0.3, 0.3]), dict(center=(-0.5, 0.1, 0.4), rt60=0.15), dict(c=400), dict(rt60=0.1, c=400, xd=3), dict(irlen=1000), dict(rt60=0.18, hp=30, irlen=250), dict(size=np.array([4.5, 5, 3]).tolist(), rt60=0.15, irlen=33)]

def configure(cfg):
    return {**BASE, **cfg}

def simulate(cfg, srcs, mics, types=()):
    """srcs, mics: name -> positions (or list of groups)"""
    setup = SimulatorSetup(None)
    sk.base_config(setup, dict(tot=4, buf=8, chunk=4))
    si = setup.sim_info
    si.rt60, si.c, si.samplerate, si.max_room_ir_length, si.extra_delay = cfg["rt60"], cfg["c"], cfg["sr"], cfg["irlen"], cfg["xd"]
    si.room_size, si.room_center, si.highpass_cutoff, si.reverb = cfg["size"], cfg["center"], cfg["hp"], "ism"
    for k, (n, p) in enumerate(srcs.items()):
        setup.add_controllable_source(n, p)
    for n, p in mics.items():
        setup.add_mics(n, p, **(dict(directivity_type=types[0], directivity_dir=types[1]) if types else {}))
    return setup.create_simulator()

def reference(cfg, sp, mp, si):
    return rirref.highpass(rirref.ism(np.reshape(sp, (-1, 3)), np.reshape(mp, (-1, 3)), si), cfg["sr"], cfg["hp"])

def subsets(n, k):
    return [p for j in range(1, k + 1) for p in itertools.permutations(range(n), j)]

def cases(tier, seed):
    t = tier == "thorough"
    for c in range(len(CFG) if t else 10):
        for s in subsets(3, 3 if t else 2):
            yield dict(kind="subsets", c=c, s=list(s), k=4 if t else 3)
        yield dict(kind="arrays", c=c)
        yield dict(kind="lengths", c=c, n=400 if t else 60)
        yield dict(kind="placement", c=c)
        if c < 4:
            for n in ((1, 2, 499, 500, 501) if t or c in (0, 3) else (1, 2, 501)) + ((1000, 1001) if t or c in (0, 3) else ()) + ((1500, 1999, 2001) if t else ()):
                yield dict(kind="batch", c=c, n=n)
    for xd in (10, 15, 20, 40):
        yield dict(kind="delay", xd=xd)
    yield dict(kind="nodelay")
    yield dict(kind="directional")

def run_case(ctx, case):
    globals()["run_" + case["kind"]](ctx, case)

def run_subsets(ctx, case):
    cfg = configure(CFG[case["c"]])
    s = [SRC[i] for i in case["s"]]
    for m in subsets(4, case["k"]):
        mp = [MIC[i] for i in m]
        sim = simulate(cfg, dict(src=np.array(s)), dict(mic=np.array(mp)))
        h = np.asarray(sim.arrays.paths["src"]["mic"])
        ctx.step(h.size)
        ctx.check(np.all(np.isfinite(h)), "finite", f"{cfg}")
        ctx.close(h, reference(cfg, s, mp, sim.sim_info), "pair", f"{cfg}: sources {case['s']}, microphones {m}", tol=1e-7)
        ctx.check(sim.arrays.path_info["src->mic"]["type"] == "ism", "type", str(sim.arrays.path_info["src->mic"]))
        ctx.state("pair", case["c"], case["s"], m)
    # the same pairs asked directly with metadata, without, and again
    g = sim.arrays.path_generator
    for kw in (dict(), dict(calculate_metadata=True), dict(verbose=True)):
        h = ir_room_image_source_3d(np.array(s), np.array(mp), cfg["size"], cfg["center"], cfg["irlen"], cfg["sr"], g.e_absorbtion, g.max_order, g.min_dly, ["omni"] * len(mp), None, **kw)
        h = h[0] if kw.get("calculate_metadata") else h
        ctx.close(rirref.highpass(h, cfg["sr"], cfg["hp"]), reference(cfg, s, mp, sim.sim_info), "pair:direct-call", f"{cfg} {kw}", tol=1e-7)
    ctx.trace()

def compositions(n):
    for cuts in itertools.product([0, 1], repeat=n - 1):
        out, cur = [], [0]
        for i, c in enumerate(cuts, 1):
            if c:
                out.append(cur); cur = []
            cur.append(i)
        yield out + [cur]

def run_arrays(ctx, case):
    cfg = configure(CFG[case["c"]])
    want = None
    for sc, mc, grouped in itertools.product(compositions(3), compositions(4), (False, True)):
        mics = {f"m{k}": np.array([MIC[i] for i in part]) for k, part in enumerate(mc)} if not grouped else dict(m0=[np.array([MIC[i] for i in part]) for part in mc])
        srcs = {f"s{k}": np.array([SRC[i] for i in part]) for k, part in enumerate(sc)}
        sim = simulate(cfg, srcs, mics)
        if want is None:
            want = reference(cfg, SRC, MIC, sim.sim_info)
        for k, part in enumerate(sc):
            for j, mpart in enumerate(mc if not grouped else [[0, 1, 2, 3]]):
                h = np.asarray(sim.arrays.paths[f"s{k}"][f"m{j}"])
                ctx.step(h.size)
                ctx.close(h, want[np.ix_(part, mpart)], "arrays", f"{cfg}: sources {sc}, microphones {mc} {'as groups' if grouped else ''}", tol=1e-7)
        ctx.state("arrays", case["c"], sc, mc, grouped)
    ctx.trace()

def run_lengths(ctx, case):
    cfg = configure(CFG[case["c"]])
    long = dict(cfg, irlen=3000)
    sim = simulate(long, dict(src=np.array(SRC[:1])), dict(mic=np.array(MIC[:2])))
    full = rirref.ism(SRC[:1], MIC[:2], sim.sim_info)
    for n in range(1, case["n"] + 1):
        c2 = dict(cfg, irlen=n)
        sim = simulate(c2, dict(src=np.array(SRC[:1])), dict(mic=np.array(MIC[:2])))
        h = np.asarray(sim.arrays.paths["src"]["mic"])
        ctx.step(h.size)
        ctx.close(h, rirref.highpass(full[..., :n], cfg["sr"], cfg["hp"]), "length", f"{cfg} length {n}", tol=1e-7)
        ctx.state("length", case["c"], n)
    ctx.trace()

def run_placement(ctx, case):
    """the room moved together with everything in it, and everything moved inside the room"""
    cfg = configure(CFG[case["c"]])
    base = reference(cfg, SRC[:2], MIC[:3], simulate(cfg, dict(src=np.array(SRC[:2])), dict(mic=np.array(MIC[:3]))).sim_info)
    for k, shift in enumerate(itertools.product((0, 5.5), (0, -3.25), (0, 0.125, 20))):
        sh = np.array(shift, float)
        c2 = dict(cfg, center=[list, tuple, np.array][k % 3](np.array(cfg["center"]) + sh))
        sim = simulate(c2, dict(src=np.array(SRC[:2]) + sh), dict(mic=np.array(MIC[:3]) + sh))
        h = np.asarray(sim.arrays.paths["src"]["mic"])
        ctx.step(h.size)
        ctx.close(h, base, "placement", f"{cfg} moved by {shift}", tol=1e-6)
        small = np.array(shift) / 100
        sim = simulate(cfg, dict(src=np.array(SRC[:2]) + small), dict(mic=np.array(MIC[:3]) + small))
        ctx.close(np.asarray(sim.arrays.paths["src"]["mic"]), reference(cfg, np.array(SRC[:2]) + small, np.array(MIC[:3]) + small, sim.sim_info), "pair", f"{cfg} inside moved by {small}", tol=1e-7)
        ctx.step(h.size)
        ctx.state("placement", case["c"], shift)
    ctx.trace()

def run_batch(ctx, case):
    cfg = dict(configure(CFG[case["c"]]), irlen=40)
    n = case["n"]
    g = np.array([[0.11 * (i % 13) - 0.7, 0.13 * (i // 13 % 11) - 0.6, 0.05 * (i // 143) - 0.3] for i in range(n)])
    sim = simulate(cfg, dict(src=np.array(SRC[:2])), dict(mic=g))
    h = np.asarray(sim.arrays.paths["src"]["mic"])
    ctx.step(h.size)
    probe = sorted({i % n for i in (0, 1, 2, 250, 498, 499, 500, 501, 750, 998, 999, 1000, 1001, 1499, 1500, 1999, 2000, n - 1, n - 2)})
    if ctx.check(h.shape == (2, n, 40), "batch:shape", f"{n} microphones: {h.shape}"):
        ctx.close(h[:, probe], reference(cfg, SRC[:2], g[probe], sim.sim_info), "batch", f"{cfg}: {n} microphones", tol=1e-7)
        # all responses at once against the same responses in blocks of 97
        for lo in range(0, n, 97):
            part = simulate(cfg, dict(src=np.array(SRC[:2])), dict(mic=g[lo:lo + 97]))
            ctx.close(h[:, lo:lo + 97], np.asarray(part.arrays.paths["src"]["mic"]), "batch", f"{cfg}: {n} microphones, block from {lo}", tol=1e-7)
    ctx.state("batch", case["c"], n)
    ctx.trace()

def run_delay(ctx, case):
    """without reflections: a single pulse of height 1/d, d/c seconds and the extra delay after the start"""
    for sr, c in ((1000, 250), (2000, 500), (500, 400), (1000, 343)):
        for k in range(1, 21):
            d = k * c / sr
            if d > 7:
                continue
            cfg = configure(dict(sr=sr, c=c, xd=case["xd"], irlen=80, size=[16, 5, 5]))
            sim = simulate(cfg, dict(src=np.array([[-3.5, 0.3, 0.1]])), dict(mic=np.array([[-3.5 + d, 0.3, 0.1]])))
            h = np.asarray(sim.arrays.paths["src"]["mic"])[0, 0]
            ctx.step(h.size)
            want = np.zeros(80)
            want[k + case["xd"]] = 1 / d
            ctx.close(h * d, want * d, "delay", f"{k} samples at {sr} Hz, c = {c}, extra delay {case['xd']}", tol=0.03)
            ctx.state("delay", sr, c, k, case["xd"])
    ctx.trace()

def run_nodelay(ctx, case):
    cfg = configure(dict(xd=0))
    sim = simulate(cfg, dict(src=np.array(SRC)), dict(mic=np.array(MIC)))
    h = np.asarray(sim.arrays.paths["src"]["mic"])
    ctx.step(h.size)
    ctx.check(np.all(np.isfinite(h)), "finite", f"extra_delay 0: {int(np.sum(~np.isfinite(h)))} of {h.size} values are not finite")
    ctx.state("nodelay")
    ctx.trace()

def run_directional(ctx, case):
    """a directional microphone is refused in a room, it never gets the response of an omnidirectional one"""
    unit = [[1.0, 0, 0], [0, -1, 0], [0, 0.6, 0.8]]
    for rt60 in (0.0, 0.15):
        cfg = configure(dict(rt60=rt60))
        plain = np.asarray(simulate(cfg, dict(src=np.array(SRC)), dict(mic=np.array(MIC[:3]))).arrays.paths["src"]["mic"])
        for types in itertools.product(["omni", "cardioid", "hypercardioid", "supercardioid", "bidirectional"], repeat=3):
            try:
                h = np.asarray(simulate(cfg, dict(src=np.array(SRC)), dict(mic=np.array(MIC[:3])), (list(types), np.array(unit))).arrays.paths["src"]["mic"])
            except NotImplementedError:
                ctx.check(set(types) != {"omni"}, "omni-refused", str(types))
                h = None
            ctx.step(1 if h is None else h.size)
            if h is not None:
                for k, t in enumerate(types):
                    same = np.allclose(h[:, k], plain[:, k], atol=1e-7)
                    ctx.check(same == (t == "omni"), "directional", f"microphone {k} of {types}, reverberation {rt60}: {'same' if same else 'other'} response as without directivity")
            ctx.state("directional", types, rt60)
    ctx.trace()
