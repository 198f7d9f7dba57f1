"""C12: a saved session is reused exactly when it fits, and reuse changes nothing."""
import dataclasses as dc, itertools, shutil
import numpy as np
import aspsim.diagnostics.diagnostics as dia
import aspsim.room.trajectory as tr
from aspsim.simulator import SimulatorSetup
from mc import simkit as sk
PROP = "C12"
TECH = "explicit-state exploration of histories of simulations sharing one session folder (all ordered pairs and chosen triples of configuration/array variants), differential against runs without sessions plus a reuse oracle"
BOUND = dict(quick="room paths: all ordered pairs of 48 variants (each changes one configuration value, array, path or source), 3-histories over 6 variants; mixed, direct, random and partly random paths: pairs with the base and 8 to 13 variants, 3-histories over 4 to 6",
             thorough="all ordered pairs of 48 variants in 5 scenarios, again after a decoy session, all 3-histories over 16 variants")
CHUNK = 1

class Move:
    def __init__(self, v): self.v = v
    def __call__(self, t): return np.array([[0.5 + self.v * t, 0.3, 0.1]])

# name -> (influence, changes); influence: "no", "yes", "ism" (only rooms), "len" (rooms and random), "hp" (everything generated), "maybe" (not decided)
CFG = {
 "tot": ("no", dict(tot_samples=5)), "buf": ("no", dict(sim_buffer=6)), "chunk": ("no", dict(sim_chunk_size=7)), "start": ("no", dict(start_sources_before_0=True)),
 "contrib": ("no", dict(save_source_contributions=True)), "auf": ("no", dict(array_update_freq=3)), "expf": ("no", dict(export_frequency=3)), "smooth": ("no", dict(output_smoothing=4)),
 "sr": ("yes", dict(samplerate=900)), "c": ("yes", dict(c=320.0)), "size": ("ism", dict(room_size=[4.5, 4.0, 3.0])), "sizez": ("ism", dict(room_size=[4.0, 4.0, 3.3])),
 "center": ("ism", dict(room_center=[0.0, 0.1, 0.0])), "rt60": ("ism", dict(rt60=0.2)), "irlen": ("len", dict(max_room_ir_length=6)), "delay": ("ism", dict(extra_delay=3)), "hp": ("hp", dict(highpass_cutoff=80)), "hp2": ("hp", dict(highpass_cutoff=90)), "rism": ("ism", dict(randomized_ism=True)),
 "tuple": ("no", dict(room_size=(4.0, 4.0, 3.0))), "nparr": ("no", dict(room_size=np.array([4.0, 4.0, 3.0]), room_center=np.zeros(3))), "npint": ("no", dict(samplerate=np.int64(1000), c=np.float64(343))),
 "intsize": ("no", dict(room_size=[4, 4, 3])),
 "wide": ("yes", dict(samplerate=1250, c=343.25, room_size=[4.25, 4.5, 3.125], room_center=[0.25, -0.125, 0.5], rt60=0.125, max_room_ir_length=12, extra_delay=12, highpass_cutoff=62.5)),
}
ARR = {"micpos": "yes", "micz": "yes", "micsmall": "yes", "srcpos": "yes", "lpos": "yes", "moremics": "yes", "rename": "yes", "permute": "yes", "swaporder": "maybe", "groups": "maybe", "source": "no", "sourcetype": "no",
       "pathval": "maybe", "pathlen": "maybe", "pathequal": "maybe", "pathzero": "maybe", "pathone": "maybe", "nopath": "maybe", "type": "yes", "traj": "maybe", "static": "maybe", "extra": "yes", "fewer": "yes", "notype": "yes"}
VARS = ["base"] + list(CFG) + list(ARR)
DIRECTIVITY = {"card": (["cardioid", "cardioid"], [[1, 0, 0], [0, 1, 0]]), "turned": (["cardioid", "cardioid"], [[1, 0, 0], [0, 0, 1]]), "bidir": (["cardioid", "bidirectional"], [[1, 0, 0], [0, 1, 0]])}
INF = dict({"base": "no"}, **{k: v[0] for k, v in CFG.items()}, **ARR)
SCEN = ["ism", "mixed", "direct", "random", "part"]

def cases(tier, seed):
    full = tier == "thorough"
    for scen in SCEN:
        near = ["base", "hp", "irlen", "nparr", "tuple", "micpos", "pathval", "static", "size", "nopath", "pathequal", "pathzero"]
        for i, v in enumerate(VARS):
            second = VARS if full or scen == "ism" or v in near[:4] + near[-3:] else near + (["type", "notype", "center", "delay", "c"] if scen == "mixed" else [])
            for lo in range(0, len(second), 16):
                yield dict(kind="pairs", scen=scen, first=v, second=second[lo:lo + 16])
        sub = ["base", "micpos", "tot", "hp", "irlen", "center", "pathval", "static"] + (["sr", "type", "traj", "delay", "rename", "permute", "groups", "extra"] if full else [])
        if not full:
            sub = sub[:6] if scen in ("ism", "mixed") else sub[:4]
        for a, b in itertools.product(sub, repeat=2):
            yield dict(kind="triples", scen=scen, first=a, mid=b, second=sub)
    for scen in SCEN:
        for w in itertools.product(["base", *DIRECTIVITY], repeat=3):
            yield dict(kind="directional", scen=scen, word=list(w))
    if full:
        for scen in SCEN:
            for v in VARS:
                yield dict(kind="pairs", scen=scen, first=v, second=VARS, decoy=True)

SC = dict(free=[1, 2], ctrl=[2], mics=[2, 2], L=3, tot=7, buf=4, chunk=3, irlen=9, paths=False, autosave=True, plot_output="pdf")

def influential(scen, v):
    """does the variant change a generated impulse response (None: the property leaves it open)"""
    k = INF[v]
    if v == "type" and scen == "none": return None
    if k == "no": return False
    if k == "yes": return True
    if k == "ism": return scen in ("ism", "mixed")
    if k == "len": return scen in ("ism", "mixed", "random", "part")
    if k == "hp": return True
    return None

GEN = {}
def generated(ctx, scen):
    """the path s1 -> m1 that is generated when it is not set"""
    key = (ctx.seed, scen)
    if key not in GEN:
        np.random.seed(11)
        sim = build(ctx, scen, "nopath", None, None).create_simulator()
        GEN[key] = {"s1": {"m1": np.array(sim.arrays.paths["s1"]["m1"])}}
    return GEN[key]["s1"]["m1"].copy()

def build(ctx, scen, v, session, base, override=None):
    d = sk.make_data(SC, ctx.rng("c12"))
    setup = SimulatorSetup(base, session, rng=np.random.default_rng(3))
    si = sk.base_config(setup, SC)
    si.reverb = {"ism": "ism", "mixed": "none", "direct": "direct", "random": "random", "part": "none"}[scen]
    si.array_update_freq = 4
    for k, val in CFG.get(v, (None, {}))[1].items():
        setattr(si, k, val)
    for k, val in (override or {}).items():
        setattr(si, k, val)
    P = {n: sk.positions(c, k) for k, (n, c) in enumerate([("s0", 1), ("s1", 2), ("l0", 2), ("m0", 2), ("m1", 2)])}
    if v == "micpos": P["m0"][1, 0] += 0.1
    if v == "micz": P["m0"][0, 2] += 0.05
    if v == "micsmall": P["m1"][0, 1] += 1e-6
    if v == "srcpos": P["s1"][0, 1] -= 0.2
    if v == "lpos": P["l0"][1, 2] += 0.04
    if v == "permute": P["m0"] = P["m0"][::-1].copy()
    if v == "moremics" and scen != "direct": P["m0"] = np.concatenate((P["m0"], [[1.0, 1.0, 0.2]]))
    elif v == "moremics": P["m0"] = P["m0"] + 0.1
    tab = {s: d["x"][s].copy() for s in d["x"]}
    if v == "source": tab = {s: x * 2 + 1 for s, x in tab.items()}
    src = {s: sk.TableSource(x) for s, x in tab.items()}
    if v == "sourcetype":
        src["s1"].metadata = {"type": "Other", "note": 3}
    mic0 = [P["m0"][:1], P["m0"][1:]] if v == "groups" else P["m0"]
    order = ["s1", "l0", "m0", "m1", "mv"]
    if v == "swaporder": order = ["mv", "m1", "l0", "m0", "s1"]
    if v == "fewer": order = ["s1", "m0", "m1", "mv"]
    ren = {"m1": "mx"} if v == "rename" else {}
    for n in order:
        if n[0] == "s": setup.add_free_source(n, P[n], src[n])
        elif n[0] == "l": setup.add_controllable_source(n, P[n])
        elif n == "mv":
            if scen == "direct": continue
            setup.add_mics("mv", np.array([[0.5, 0.3, 0.1]]) if v == "static" else tr.Trajectory(Move(0.2 if v == "traj" else 0.06)))
        elif n == "m0" and v in DIRECTIVITY:
            setup.add_mics(n, mic0, directivity_type=DIRECTIVITY[v][0], directivity_dir=np.array(DIRECTIVITY[v][1], float))
        else: setup.add_mics(ren.get(n, n), mic0 if n == "m0" else P[n])
    if v == "extra":
        setup.add_mics("me", np.array([[0.2, 0.9, 0.0], [0.3, 0.9, 0.0]]))
    m1 = ren.get("m1", "m1")
    if v != "nopath":
        h = d["h"]["s1"]["m1"] * (2 if v == "pathval" else 1)
        if v == "pathlen": h = np.concatenate((h, np.ones((2, 2, 3))), axis=-1)
        if v == "pathequal": h = generated(ctx, scen)
        if v == "pathzero": h = np.zeros_like(h)
        if v == "pathone": h = np.ones_like(h[:, :, :1])
        setup.set_path("s1", m1, h)
    if scen == "mixed" and v != "notype":
        setup.arrays.set_path_types({"s1": {"m0": "ism", "mv": "ism"}})
        if v != "fewer": setup.arrays.set_path_types({"l0": {m1: "direct"}})
    elif scen == "part" and v != "notype":
        setup.arrays.set_path_types({"s1": {"m0": "random"}})
    elif v == "notype":
        setup.arrays.set_path_types({"s1": {"m0": "none" if scen not in ("mixed", "part") else "direct"}})
    if v == "type":
        setup.arrays.set_path_types({"s1": {"m0": "direct" if scen == "mixed" else "none"}})
    return setup

def observe(setup, yaml_c=True):
    sk.light(yaml_c)
    sim = setup.create_simulator()
    names = {a.name: a.num for a in sim.arrays}
    for n, c in names.items():
        sim.diag.add_diagnostic("rec_" + n, dia.RecordSignal(n, sim.sim_info, num_channels=c, export_at=[sim.sim_info.tot_samples], export_func="npz"))
    paths0 = {(s.name, m.name): np.array(p) for s, m, p in sim.arrays.iter_paths()}
    types0 = {s: dict(v) for s, v in sim.arrays.path_type.items()}
    sim.run_simulation()
    paths1 = {(s.name, m.name): np.array(p) for s, m, p in sim.arrays.iter_paths()}
    return dict(rec={n: np.array(sim.diag["rec_" + n].get_output()) for n in names}, info=plain(dc.asdict(sim.sim_info)), paths0=paths0, paths1=paths1, types=types0,
                meta={f: v for f, v in sk.read_folder(sim.folder_path).items() if f.endswith(".json")}, npz={f: v for f, v in sk.read_folder(sim.folder_path).items() if f.endswith(".npz")},
                groups={a.name: [list(map(int, g)) for g in (a.group_idxs or [])] for a in sim.arrays}, dyn={a.name: a.dynamic for a in sim.arrays}, order=[a.name for a in sim.arrays],
                pos={a.name: np.array(a.pos) for a in sim.arrays}, calls={s.name: list(s.source.calls) for s in sim.arrays.free_sources()})

def plain(x):
    if isinstance(x, dict): return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [plain(v) for v in x]
    if isinstance(x, np.ndarray): return x.tolist()
    if isinstance(x, np.generic): return x.item()
    return x

REF = {}
_n = itertools.count()
def fresh_dir(ctx, name):
    p = ctx.dir / f"{name}{next(_n)}"
    p.mkdir()
    return p

def run_case(ctx, case):
    scen = case["scen"]
    def reference(v):
        key = (ctx.seed, scen, v)
        if key not in REF:
            np.random.seed(11)
            REF[key] = observe(build(ctx, scen, v, None, fresh_dir(ctx, "f")))
        return REF[key]
    def play(sess, hist, v, used):
        """one more simulation with the session folder; used: variants simulated before"""
        count = len(list(sess.iterdir()))
        hist = hist + [v]
        np.random.seed(11)
        got = observe(build(ctx, scen, v, sess, fresh_dir(ctx, "f")))
        new = len(list(sess.iterdir())) - count
        want = reference(v)
        if scen in ("random", "part"):      # fresh random numbers: only the shapes are determined
            for k in ("paths0", "paths1", "rec", "npz"):
                g = {p: np.shape(x) for p, x in got[k].items()}; w = {p: np.shape(x) for p, x in want[k].items()}
                ctx.check(g == w, "reuse-differs-" + k, lambda: f"history {hist}: {g}, without sessions {w}")
            for p in want["paths0"]:
                if want["types"][p[0]][p[1]] != "random":
                    ctx.check(sk.same(got["paths0"][p], want["paths0"][p], 1e-5), "reuse-differs-path", f"history {hist}: {p}")
        for k in want:
            if scen in ("random", "part") and k in ("paths0", "paths1", "rec", "npz"): continue
            if v == "rism" and scen in ("ism", "mixed") and k in ("paths1", "rec", "npz"): continue     # responses of the moving array are drawn anew during the run
            ctx.check(sk.same(got[k], want[k], 1e-5), "reuse-differs-" + k, lambda: f"history {hist}: {diff(got[k], want[k])}")
        # a session that fits is used, one that does not is not
        ctx.check(new in (0, 1), "session-count", f"history {hist}: {new} session folders written")
        fits = [compare(scen, u, v) for u in used]
        if True in fits:
            ctx.check(new == 0, "not-reused", f"history {hist}: a fitting session was not used")
        elif all(f is False for f in fits):
            ctx.check(new == 1, "wrongly-reused", f"history {hist}: no fitting session exists but none was generated")
        ctx.step(); ctx.state(scen, hist, new)
        return hist
    sess = fresh_dir(ctx, "sess")
    if case["kind"] == "directional":
        # directional microphones: with earlier sessions the same outcome (a simulation or a refusal) as without
        def outcome(v, sess):
            np.random.seed(11)
            try:
                return observe(build(ctx, scen, v, sess, fresh_dir(ctx, "f")))
            except NotImplementedError:
                return "rejected"
        for i, v in enumerate(case["word"]):
            n0 = len(list(sess.iterdir()))
            got = outcome(v, sess)
            if (ctx.seed, scen, v) not in REF: REF[ctx.seed, scen, v] = outcome(v, None)
            want = REF[ctx.seed, scen, v]
            ctx.step(); ctx.state("directional", scen, case["word"][:i + 1])
            if ctx.check((got == "rejected") == (want == "rejected"), "directional", f"{scen} {case['word'][:i + 1]}: {'rejected' if got == 'rejected' else 'accepted'}, without earlier sessions {'rejected' if want == 'rejected' else 'accepted'}") and got != "rejected":
                for k in want:
                    if scen in ("random", "part") and k in ("paths0", "paths1", "rec", "npz"): continue
                    ctx.check(sk.same(got[k], want[k], 1e-5), "reuse-differs-" + k, lambda: f"directional {case['word'][:i + 1]}: {diff(got[k], want[k])}")
                if v in case["word"][:i]:
                    ctx.check(len(list(sess.iterdir())) == n0, "not-reused", f"directional {case['word'][:i + 1]}: a fitting session was not used")
        ctx.trace()
        return
    if case.get("decoy"):
        np.random.seed(11)
        build(ctx, {"ism": "mixed", "mixed": "ism", "direct": "random", "random": "direct", "part": "random"}[scen], "base", sess, fresh_dir(ctx, "f")).create_simulator()
    hist = []
    for v in [case["first"]] + ([case["mid"]] if "mid" in case else []):
        hist = play(sess, hist, v, list(hist))
    for second in case["second"]:
        mine = fresh_dir(ctx, "sess")
        shutil.copytree(sess, mine, dirs_exist_ok=True)
        play(mine, hist, second, list(hist))
        ctx.trace()

def compare(scen, u, v):
    """does the session left by variant u fit variant v (None: open)"""
    if u == v: return True
    if {u, v} == {"type", "notype"}: return None
    a, b = influential(scen, u), influential(scen, v)
    if a is None or b is None: return None
    return not (a or b)

def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in b:
            if k not in a or not sk.same(a[k], b[k]):
                return f"{k}: got {str(a.get(k))[:300]}, without sessions {str(b[k])[:300]}"
        return f"keys {sorted(map(str, a))} vs {sorted(map(str, b))}"
    return f"got {str(a)[:300]}, without sessions {str(b)[:300]}"
