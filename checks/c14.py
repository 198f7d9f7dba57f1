"""C14: configuration and metadata files describe the simulation and read back equal."""
import dataclasses as dc, itertools, json, copy
import numpy as np
from pathlib import Path
import aspsim.configutil as cu
import aspsim.array as ar
import aspsim.saveloadsession as sess
import aspsim.room.region as reg
import aspsim.room.trajectory as tr
import aspsim.signal.sources as so
from aspsim.simulator import SimulatorSetup
from mc import simkit as sk
LIGHT = True      # figures are not looked at
PROP = "C14"
TECH = "exhaustive enumeration on the real code: every configuration field over an alphabet of value kinds (all single and all pairs of changes) written, read and written again; every composition of array kinds, path types, source kinds, replacements and processors with the written files compared to an independent description"
BOUND = dict(quick="91 values of 21 fields: every value through a complete set-up, all pairs of values of different fields through the file; all unordered pairs of source array kinds x all ordered pairs of microphone array kinds with all path types in turn, 40 source descriptions, replaced and changed sources, 11 processor sets, sessions",
             thorough="additionally all pairs of configuration values through a complete set-up and all triples of array kinds with all assignments of path types to pairs")
CHUNK = 8

def nums(*v):
    out = []
    for x in v:
        out += [x, np.int64(x) if isinstance(x, int) else np.float64(x)]
    return out
VALUES = dict(
 tot_samples=[0, 7, np.int64(7), np.int32(3), 10 ** 12], sim_buffer=[1, 17, np.int64(9)], sim_chunk_size=[1, 23, np.int64(9)],
 start_sources_before_0=[True, False, np.bool_(True)], save_source_contributions=[True, np.bool_(False)], array_update_freq=[1, 5, np.int64(2)],
 samplerate=[1, 44100, np.int64(8000), 22050.5, np.float32(500.5)], c=[343, 343.5, np.float64(340.25), 1e-5, 1e22, 0.1], spatial_dims=[3, np.int64(3)], reverb=["none", "direct", "random", "ism"],
 room_size=[[5.1, 4, 2.5], (5, 4, 3), np.array([5.0, 4.2, 3.1]), np.array([5, 4, 3]), [np.float64(5.5), np.int64(4), 3], np.array([5.5, 4.5, 3.5], dtype=np.float32)],
 room_center=[[0, 0, 0], (0.1, -0.2, 0.3), np.array([0.1, -0.2, 1e-7]), [np.float64(-1), 0, 1e-6]],
 rt60=[0, 0.0, 0.25, np.float64(0.3)], max_room_ir_length=[1, 3000, np.int64(77)], randomized_ism=[True, False, np.bool_(True)], extra_delay=[0, 3, np.int64(40)],
 highpass_cutoff=[0, 0.0, 17, 80.5, np.float64(20.0)], export_frequency=[1, 999, np.int64(12)], plot_output=["none", "pdf", "svg"], output_smoothing=[1, 20, np.int64(3)], auto_save_load=[True, False, np.bool_(False)])
FLAT = [(f, i) for f, v in VALUES.items() for i in range(len(v))]

# ---- array kinds
def P(n, k): return sk.positions(n, k)
class Traj(tr.Trajectory):
    def __init__(self, n, k):
        self.n, self.k = n, k
        super().__init__(lambda t: P(self.n, self.k) + 0.01 * t)
    def plot(self, ax, symbol, name, tot_samples): pass
MICS = ["plain1", "plain3", "plain0", "groups", "onegroup", "emptygroup", "moving", "region", "regions", "regionpos", "tuplegroups", "regrouped"]
SRCS = ["free1", "free2", "ctrl1", "ctrl3", "ctrl0", "freegroups", "ctrlmoving", "freemoving", "ctrlregrouped"]
TYPES = ["none", "direct", "random", "ism", "modified", None]

def make_mic(kind, name, k):
    """array and what the files have to say about it: (positions, metadata)"""
    meta = dict(type="MicArray", dynamic=False)
    if kind in ("plain1", "plain3", "plain0"):
        n = int(kind[-1]); a = ar.MicArray(name, P(n, k)); pos = P(n, k); meta["number of groups"] = 1
    elif kind in ("groups", "tuplegroups"):
        g = [P(2, k), P(1, k + 3), P(3, k + 7)]; a = ar.MicArray(name, g if kind == "groups" else tuple(g)); pos = np.concatenate(g); meta["number of groups"] = 3
    elif kind == "onegroup":
        a = ar.MicArray(name, [P(2, k)]); pos = P(2, k); meta["number of groups"] = 1
    elif kind == "emptygroup":
        a = ar.MicArray(name, [P(2, k), P(0, k)]); pos = P(2, k); meta["number of groups"] = 2
    elif kind == "moving":
        a = ar.MicArray(name, Traj(2, k)); pos = P(2, k); meta.update({"number of groups": 1, "dynamic": True})
    elif kind == "regrouped":
        a = ar.MicArray(name, P(4, k)); a.set_groups([[0, 2], [1], [3]]); pos = P(4, k); meta["number of groups"] = 3
    elif kind == "region":
        r = reg.Rectangle((0.75, 0.5), (0.2 * k, 0.1, 0.0), (0.25, 0.25)); a = ar.RegionArray(name, r)
        pos = np.array([[0.2 * k + x, 0.1 + y, 0.0] for y in (-0.125, 0.125) for x in (-0.25, 0.0, 0.25)]); meta.update({"type": "RegionArray", "number of groups": 1, "region shape": "Rectangle"})
    elif kind == "regions":
        rs = [reg.Rectangle((0.25, 0.25), (0.1, 0.1 * k, 0.2), (0.25, 0.25)), reg.Rectangle((0.25, 0.25), (1.0, 0.1 * k, 0.2), (0.25, 0.25))]
        a = ar.RegionArray(name, rs); pos = np.array([[0.1, 0.1 * k, 0.2], [1.0, 0.1 * k, 0.2]]); meta.update({"type": "RegionArray", "number of groups": 2, "region shape": "CombinedRegion"})
    elif kind == "regionpos":
        r = reg.Rectangle((0.75, 0.5), (0.2 * k, 0.1, 0.0), (0.25, 0.25)); a = ar.RegionArray(name, r, pos=P(2, k)); pos = P(2, k); meta.update({"type": "RegionArray", "number of groups": 1, "region shape": "Rectangle"})
    meta["number"] = len(pos)
    return a, pos, meta

def make_src(kind, name, k):
    if kind.startswith("free"):
        n = {"free1": 1, "free2": 2, "freegroups": 3, "freemoving": 1}[kind]
        s = so.WhiteNoiseSource(n, 0.5, np.random.default_rng(k))
        p = {"freegroups": [P(1, k), P(2, k + 1)], "freemoving": Traj(1, k)}.get(kind, P(n, k))
        a = ar.FreeSourceArray(name, p, s)
        meta = {"type": "FreeSourceArray", "source info": {"number of channels": n, "power": 0.5}}
    else:
        n = {"ctrl1": 1, "ctrl3": 3, "ctrl0": 0, "ctrlmoving": 2, "ctrlregrouped": 3}[kind]
        p = Traj(2, k) if kind == "ctrlmoving" else P(n, k)
        a = ar.ControllableSourceArray(name, p); meta = {"type": "ControllableSourceArray"}
        if kind == "ctrlregrouped":
            a.set_groups([np.array([1]), np.array([0, 2])])
    meta.update({"number": n, "dynamic": kind.endswith("moving"), "number of groups": {"freegroups": 2, "ctrlregrouped": 2}.get(kind, 1)})
    pos = np.concatenate([P(1, k), P(2, k + 1)]) if kind == "freegroups" else P(n, k)
    return a, pos, meta

# ---- sources: constructor, expected description (source info), optional change after creation
def SOURCES():
    g = lambda: np.random.default_rng(3)
    yield "white", lambda: so.WhiteNoiseSource(2, 0.3, g()), {"number of channels": 2, "power": 0.3}
    yield "white_vec", lambda: so.WhiteNoiseSource(2, np.array([0.3, 2]), g()), {"number of channels": 2, "power": [0.3, 2]}
    yield "white_1", lambda: so.WhiteNoiseSource(2, np.array([0.3]), g()), {"number of channels": 2, "power": [0.3]}
    yield "white_npint", lambda: so.WhiteNoiseSource(1, np.int64(3), g()), {"number of channels": 1, "power": 3}
    yield "white_npf", lambda: so.WhiteNoiseSource(1, np.float32(0.5), g()), {"number of channels": 1, "power": 0.5}
    yield "white_npchan", lambda: so.WhiteNoiseSource(np.int64(2), 1, g()), {"number of channels": 2, "power": 1}
    yield "white_set", lambda: setp(so.WhiteNoiseSource(2, 0.3, g()), 4.5), {"number of channels": 2, "power": 4.5}
    yield "white_setvec", lambda: setp(so.WhiteNoiseSource(2, 0.3, g()), np.array([4.5, 1.0])), {"number of channels": 2, "power": [4.5, 1.0]}
    yield "sine", lambda: so.SineSource(1, 0.3, 100, 1000, g()), {"number of channels": 1, "power": 0.3, "frequency": 100}
    yield "sine_vec", lambda: so.SineSource(2, np.array([0.3, 0.4]), 100.5, 1000, g()), {"number of channels": 2, "power": [0.3, 0.4], "frequency": 100.5}
    yield "sine_np", lambda: so.SineSource(2, np.float64(0.3), np.int64(50), 1000, g()), {"number of channels": 2, "power": 0.3, "frequency": 50}
    yield "multi", lambda: so.MultiSineSource(1, 0.3, np.array([100.0, 200.5]), 1000, g()), {"number of channels": 1, "power": 0.3, "frequency": [100.0, 200.5]}
    yield "multi_list", lambda: so.MultiSineSource(1, 1, [100, 200], 1000, g()), {"number of channels": 1, "power": 1, "frequency": [100, 200]}
    yield "multi_tuple", lambda: so.MultiSineSource(1, 1, (100, 200, 30), 1000, g()), {"number of channels": 1, "power": 1, "frequency": [100, 200, 30]}
    yield "band", lambda: so.BandlimitedNoiseSource(2, 0.3, (100, 200), 1000, g()), {"number of channels": 2, "power": 0.3, "frequency span": [100, 200]}
    yield "band_np", lambda: so.BandlimitedNoiseSource(2, np.array([0.3, 1.0]), np.array([100.0, 200.0]), 1000, g()), {"number of channels": 2, "power": [0.3, 1.0], "frequency span": [100, 200]}
    yield "band_set", lambda: setp(so.BandlimitedNoiseSource(1, 0.3, [100, 200], 1000, g()), 7), {"number of channels": 1, "power": 7, "frequency span": [100, 200]}
    yield "gold", lambda: so.GoldSequenceSource(2, 0.5, 5), {"number of channels": 2, "power": [[0.5]], "order": 5, "sequence length": 31}
    yield "gold_vec", lambda: so.GoldSequenceSource(2, np.array([0.5, 2.0]), 6), {"number of channels": 2, "power": [[0.5], [2.0]], "order": 6, "sequence length": 63}
    yield "gold_set", lambda: setp(so.GoldSequenceSource(1, 0.5, np.int64(7)), np.float64(3)), {"number of channels": 1, "power": [[3.0]], "order": 7, "sequence length": 127}
    yield "mls", lambda: so.MLS(1, 5, [2]), {"number of channels": 1, "order": 5, "polynomial": [2], "start state": None}
    yield "mls_state", lambda: so.MLS(1, 5, [2], state=[0, 1, 0, 0, 1]), {"number of channels": 1, "order": 5, "polynomial": [2], "start state": [0, 1, 0, 0, 1]}
    yield "mls_np", lambda: so.MLS(1, np.int64(5), np.array([2]), state=np.array([0, 1, 0, 0, 1])), {"number of channels": 1, "order": 5, "polynomial": [2], "start state": [0, 1, 0, 0, 1]}
    yield "counter", lambda: so.Counter(1, 4), {"number of channels": 1, "start number": 4}
    yield "counter_np", lambda: so.Counter(1, np.int64(4)), {"number of channels": 1, "start number": 4}
    yield "pulse", lambda: so.PulseTrain(2, 1.5, 3, 1), {"number of channels": 2}
    yield "seq", lambda: so.Sequence(np.ones((3, 4))), {"number of channels": 3}
    yield "seq1", lambda: so.Sequence(np.ones(4)), {"number of channels": 1}
    yield "autocorr", lambda: so.AutocorrSource(1, np.array([[1, 0.5, 0.2]]), g()), {"number of channels": 1}
    def user():
        s = sk.TableSource(np.ones((2, 500))); s.metadata = {"a": np.arange(3), "b": (1, np.float32(0.5)), "c": {"d": [np.int64(1), "x", None, True]}, "e": np.bool_(False)}
        return s
    yield "user", user, {"a": [0, 1, 2], "b": [1, 0.5], "c": {"d": [1, "x", None, True]}, "e": False}
def setp(s, p):
    s.set_power(p); return s
SRC = {n: (f, m) for n, f, m in SOURCES()}

def cases(tier, seed):
    for f, i in FLAT:
        yield dict(kind="config", changes=[[f, i]])
    yield dict(kind="config2d")
    if tier == "thorough":
        for (f, i), (g, j) in itertools.combinations(FLAT, 2):
            if f != g:
                yield dict(kind="config", changes=[[f, i], [g, j]])
    for f in VALUES:
        yield dict(kind="filepairs", field=f)
    pairs = list(itertools.product(range(len(SRCS)), repeat=2))
    n = 0
    for a, b in itertools.product(SRCS, repeat=2) if tier == "thorough" else itertools.combinations_with_replacement(SRCS, 2):
        for m, o in itertools.product(MICS, repeat=2):
            yield dict(kind="arrays", src=[a, b], mic=[m, o], types=[TYPES[(n + i * (1 + n // 6)) % 6] for i in range(4)], reverb=["none", "direct", "ism", "random"][n % 4], first=["src", "mic", "mix"][n % 3]); n += 1
    for t in itertools.product(TYPES, repeat=4) if tier == "thorough" else [list(t) for t in itertools.product(TYPES, repeat=2)]:
        yield dict(kind="arrays", src=["free1", "ctrl3"], mic=["plain1", "groups"], types=list(t) if len(t) == 4 else [t[0], t[1], t[1], t[0]], reverb="direct", first="src")
    if tier == "thorough":
        for s in itertools.product(SRCS, repeat=3):
            for m in MICS:
                yield dict(kind="arrays", src=list(s), mic=[m], types=[None, None, None], reverb="none", first="src")
    for s in SRC:
        yield dict(kind="source", src=s)
    for a, b in itertools.permutations(SRC, 2):
        if SRC[a][1].get("number of channels", 2) == SRC[b][1].get("number of channels", 2):
            yield dict(kind="replace", first=a, second=b)
    for p in range(len(PROCS)):
        for folder in (True, False):
            yield dict(kind="proc", proc=p, folder=folder)
    for k in ("load", "loadstr", "loadmeta", "str", "config_path", "config_str", "session_twice", "loadnone"):
        for rev in ("none", "direct", "ism", "random"):
            yield dict(kind="session", what=k, reverb=rev)

PROCS = [(None, {}), ("a", {}), ("a", {"x": 1}), ("a.b c/ü", {"x": [1, 2.5, None, "s"]}), ("", {"y": {"z": True}}), ("a", {"m": np.arange(4).reshape(2, 2)}), ("a", {"i": np.int64(3), "f": np.float32(0.5), "b": np.bool_(True)}),
         ("a", {"t": (1, (2, 3))}), ("late", {"x": 1}), ("Abstract Processor", {"n": {"deep": [np.array([1.5])]}}), ("a", {"u": "é\n\""})]

def plain(v):
    if isinstance(v, dict): return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [plain(x) for x in v]
    if isinstance(v, (np.ndarray, np.generic)): return v.tolist()
    return v

def equal(a, b):
    a, b = plain(a), plain(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool) or isinstance(a, str) != isinstance(b, str):
        return False
    return a == b

def same_config(ctx, got, want, key):
    for f in dc.fields(cu.SimulatorInfo):
        ctx.step()
        ctx.check(equal(getattr(got, f.name), want[f.name]), f"{key}:{f.name}", f"{f.name}: wrote {want[f.name]!r}, read {getattr(got, f.name)!r}")
    ctx.state(key.split(":")[0], {k: plain(v) for k, v in want.items()})

def through_files(ctx, folder, want, key):
    for p in (folder, folder / "config.yaml"):
        same_config(ctx, cu.load_from_file(p), want, key)
    again = ctx.dir / "again"
    again.mkdir(exist_ok=True)
    cu.load_from_file(folder).save_to_file(again)
    ctx.check((again / "config.yaml").read_bytes() == (folder / "config.yaml").read_bytes(), key + "-stable", "writing what was read gives another file")

def fields(si):
    return {f.name: copy.deepcopy(getattr(si, f.name)) for f in dc.fields(si)}

def base(ctx, reverb="none", **kw):
    setup = SimulatorSetup(ctx.dir if kw.pop("figs", True) else None, rng=np.random.default_rng(1), **kw)
    si = sk.base_config(setup, dict(tot=4, buf=6, chunk=7, reverb=reverb, plot_output="pdf", xd=2, irlen=30))
    return setup

def run_case(ctx, case):
    globals()["run_" + case["kind"]](ctx, case)
    ctx.trace()

def run_config(ctx, case):
    setup = base(ctx)
    for f, i in case["changes"]:
        setattr(setup.sim_info, f, copy.deepcopy(VALUES[f][i]))
    setup.session_folder = ctx.dir / "sessions"; setup.session_folder.mkdir()
    setup.add_controllable_source("l", P(1, 0)); setup.add_mics("m", P(1, 1))
    setup.set_path("l", "m", np.ones((1, 1, 2)))
    want = fields(setup.sim_info)
    sim = setup.create_simulator()
    same_config(ctx, sim.sim_info, want, "simulator")
    same_config(ctx, setup.sim_info, want, "setup")
    if plain(want["plot_output"]) == "none":
        ctx.check(sim.folder_path is None, "folder-none", "a folder although plot_output is none")
        folder = ctx.dir / "direct"; folder.mkdir(); setup.sim_info.save_to_file(folder)
    else:
        folder = sim.folder_path
    through_files(ctx, folder, want, "config")
    same_config(ctx, SimulatorSetup(config_path=folder / "config.yaml").sim_info, want, "config_path")
    saved = list((ctx.dir / "sessions").iterdir())
    ctx.check(len(saved) == int(bool(want["auto_save_load"])), "session", f"{len(saved)} sessions")
    for s in saved:
        through_files(ctx, s, want, "session")

def run_config2d(ctx, case):
    si = fields(cu.load_default_config())
    for size in ([3, 4], (3.5, 4), np.array([3.0, 4.0])):
        for dims in (2, np.int64(2)):
            v = dict(si, spatial_dims=dims, room_size=size, room_center=size)
            cu.SimulatorInfo(**v).save_to_file(ctx.dir)
            through_files(ctx, ctx.dir, v, "dims2")

def run_filepairs(ctx, case):
    f = case["field"]
    default = fields(cu.load_default_config())
    for i in range(len(VALUES[f])):
        for g, j in FLAT:
            if g > f:
                v = dict(default); v[f] = VALUES[f][i]; v[g] = VALUES[g][j]
                cu.SimulatorInfo(**copy.deepcopy(v)).save_to_file(ctx.dir)
                same_config(ctx, cu.load_from_file(ctx.dir), v, "pair")

def read(folder, name):
    return json.loads((folder / name).read_text())

def check_files(ctx, sim, pos, meta, types, key):
    folder = sim.folder_path
    ctx.check(sorted(read(folder, "array_pos.json")) == sorted(pos), key + ":pos-names", "array_pos.json names")
    got = read(folder, "array_pos.json")
    for n, p in pos.items():
        ctx.step()
        g = np.array(got[n], dtype=float).reshape(-1, 3) if len(got[n]) else np.zeros((0, 3))
        ctx.close(g, p, key + ":pos", f"array_pos.json of {n}", tol=1e-12)
        ctx.close(sim.arrays[n].pos, p, key + ":pos-used", f"positions used of {n}", tol=1e-12)
    gm = read(folder, "metadata_arrays.json")
    ctx.check(sorted(gm) == sorted(meta), key + ":arrays-names", f"metadata_arrays.json has {sorted(gm)}")
    for n, m in meta.items():
        for k, v in m.items():
            ctx.step()
            ctx.check(k in gm[n] and equal(gm[n][k], v), f"{key}:meta:{k}", f"{n}: {k} is {gm[n].get(k)!r}, used {v!r}")
        a = sim.arrays[n]
        ctx.check(gm[n]["number"] == a.num == a.pos.shape[0] and gm[n]["number of groups"] == a.num_groups and gm[n]["dynamic"] == a.dynamic and gm[n]["type"] == type(a).__name__, key + ":meta-used", f"{n} differs from the array")
    gp = read(folder, "metadata_paths.json")
    ctx.check(sorted(gp) == sorted(types), key + ":paths-names", f"metadata_paths.json has {sorted(gp)}")
    for n, t in types.items():
        ctx.step()
        ctx.check(gp[n]["type"] == t, key + ":path-type", f"{n}: {gp[n]['type']}, used {t}")
        s, m = n.split("->")
        if t != "none" or (sim.arrays[s].num and sim.arrays[m].num):
            ctx.check(sim.arrays.path_type[s][m] == t, key + ":path-used", f"{n}: used {sim.arrays.path_type[s][m]}")
        path = sim.arrays.paths[s][m]
        if t == "none":
            ctx.check(not np.any(path), key + ":none-path", f"{n} is written as none")
        else:
            ctx.check(np.any(path), key + ":path", f"{n} written as {t} is silent")
    ctx.state(key, got, gm, gp)

def run_arrays(ctx, case):
    setup = base(ctx, case["reverb"])
    srcs = [make_src(k, f"s{i}", i) for i, k in enumerate(case["src"])]
    mics = [make_mic(k, f"m{i}", 5 + i) for i, k in enumerate(case["mic"])]
    order = {"src": srcs + mics, "mic": mics + srcs, "mix": [x for p in itertools.zip_longest(mics, srcs) for x in p if x]}[case["first"]]
    for a, _, _ in order:
        setup.add_array(a)
    types = {}
    k = 0
    for (s, _, sm) in srcs:
        for (m, _, mm) in mics:
            t = case["types"][k]; k += 1
            if (t or case["reverb"]) == "direct" and s.num != m.num:
                t = "ism"
            if t == "modified":
                setup.set_path(s.name, m.name, np.ones((s.num, m.num, 3)))
            elif t is not None:
                setup.arrays.path_type[s.name][m.name] = t
            t = t or case["reverb"]
            types[f"{s.name}->{m.name}"] = "none" if s.num == 0 or m.num == 0 else t
    sim = setup.create_simulator()
    check_files(ctx, sim, {a.name: p for a, p, _ in order}, {a.name: m for a, _, m in order}, types, "arrays")
    sim2 = setup.create_simulator()
    ctx.check(sim2.folder_path != sim.folder_path, "fresh", "the second simulator writes in the folder of the first")
    check_files(ctx, sim2, {a.name: p for a, p, _ in order}, {a.name: m for a, _, m in order}, types, "second")

def src_setup(ctx, name):
    setup = base(ctx, "none")
    s = SRC[name][0]()
    setup.add_free_source("s", P(int(s.num_channels), 0), s); setup.add_mics("m", P(1, 3))
    setup.set_path("s", "m", np.ones((int(s.num_channels), 1, 2)))
    return setup, s

def src_files(ctx, setup, name, key):
    sim = setup.create_simulator()
    got = read(sim.folder_path, "metadata_arrays.json")["s"]["source info"]
    ctx.step()
    ctx.check(equal(got, SRC[name][1]), f"{key}:{name}", f"source info {got}, source is {SRC[name][1]}")
    ctx.state(got)
    return sim

def run_source(ctx, case):
    setup, s = src_setup(ctx, case["src"])
    sim = src_files(ctx, setup, case["src"], "source")
    sim.sim_info.tot_samples = 3
    sim.run_simulation()
    src_files(ctx, setup, case["src"], "source-again")
    # the description follows the source the simulation uses, also when that is changed after it was added
    if hasattr(s, "set_power"):
        n, gold = int(s.num_channels), case["src"].startswith("gold")
        for power in (2.5, 7, np.arange(1.0, n + 1), np.float32(0.25)):
            s.set_power(power)
            want = dict(SRC[case["src"]][1], power=[[float(p)] for p in np.atleast_1d(power)] if gold else np.asarray(power).tolist())
            sim = setup.create_simulator()
            got = read(sim.folder_path, "metadata_arrays.json")["s"]["source info"]
            ctx.step()
            ctx.check(equal(got, want), f"changed:{case['src']}", f"power set to {power}: source info {got}, source is {want}")

def run_replace(ctx, case):
    setup, s = src_setup(ctx, case["first"])
    src_files(ctx, setup, case["first"], "before")
    setup.set_source("s", SRC[case["second"]][0]())
    sim = src_files(ctx, setup, case["second"], "replaced")
    want = SRC[case["second"]][0]().get_samples(4)
    ctx.close(np.asarray(sim.arrays["s"].get_samples(4)).reshape(np.shape(want)), want, "replaced-signal", "the replaced source does not play")

def run_proc(ctx, case):
    name, meta = PROCS[case["proc"]]
    setup = base(ctx, "none", figs=case["folder"])
    setup.add_controllable_source("l", P(1, 0)); setup.add_mics("m", P(1, 3))
    setup.set_path("l", "m", np.ones((1, 1, 2)))
    sim = setup.create_simulator()
    if name is not None:
        p = sk.PlanProcessor(sim.sim_info, sim.arrays, 2, dict(free=[], ctrl=[], mics=[]), dict(plan={}), watch=False)
        p.name = name
        if name != "late":
            p.metadata = copy.deepcopy(meta)
        sim.add_processor(p if name != "" else [p])
        p.metadata.update(copy.deepcopy(meta))
    sim.run_simulation()
    if case["folder"]:
        f = sim.folder_path / "metadata_processor.json"
        got = json.loads(f.read_text()) if f.exists() else {}
        ctx.check(equal(got, {} if name is None else {name: meta}), "processor", f"metadata_processor.json {got}")
        ctx.state(got)
    else:
        ctx.check(sim.folder_path is None and not list(ctx.dir.rglob("*.json")), "no-folder", "files without a folder")

def run_session(ctx, case):
    what, rev = case["what"], case["reverb"]
    for n in ("figs", "sessions", "saved"):
        (ctx.dir / n).mkdir()
    path = (lambda p: str(p)) if "str" in what else (lambda p: p)
    def fill(setup):
        sk.base_config(setup, dict(tot=4, buf=6, chunk=7, reverb=rev, plot_output="pdf", xd=2, irlen=30, autosave=True))
        setup.add_free_source("s", P(2, 0), so.WhiteNoiseSource(2, 0.5)); setup.add_controllable_source("l", P(1, 2)); setup.add_mics("m", [P(1, 4), P(1, 5)])
        setup.set_path("l", "m", np.arange(6.0).reshape(1, 2, 3))
    pos = {"s": P(2, 0), "l": P(1, 2), "m": np.concatenate([P(1, 4), P(1, 5)])}
    meta = {"s": {"type": "FreeSourceArray", "source info": {"number of channels": 2, "power": 0.5}, "number": 2, "number of groups": 1}, "l": {"number": 1}, "m": {"number": 2, "number of groups": 2}}
    types = {"s->m": rev, "l->m": "modified"}
    setup = SimulatorSetup(path(ctx.dir / "figs"), path(ctx.dir / "sessions"))
    fill(setup)
    want = fields(setup.sim_info)
    sim = setup.create_simulator()
    check_files(ctx, sim, pos, meta, types, "saved")
    saved = list((ctx.dir / "sessions").iterdir())
    ctx.check(len(saved) == 1, "one-session", f"{len(saved)} sessions")
    if what in ("session_twice", "str"):
        again = SimulatorSetup(path(ctx.dir / "figs"), path(ctx.dir / "sessions"))
        fill(again)
        sim2 = again.create_simulator()
        ctx.check(len(list((ctx.dir / "sessions").iterdir())) == 1, "reused", "the session is not reused")
        check_files(ctx, sim2, pos, meta, types, "reused")
        same_config(ctx, cu.load_from_file(sim2.folder_path), want, "reused-config")
        for s in "sl":
            ctx.close(sim2.arrays.paths[s]["m"], sim.arrays.paths[s]["m"], "reused-path", s, tol=0)
    elif what.startswith("load"):
        if what == "loadmeta":
            sess.add_to_sim_metadata(saved[0], {"a": 1}); sess.add_to_sim_metadata(saved[0], {"b": [2]})
        other = SimulatorSetup(None if what == "loadnone" else path(ctx.dir / "figs"))
        other.sim_info.plot_output = "pdf"
        other.load_from_path(path(saved[0]))
        same_config(ctx, other.sim_info, want, "loaded-config")
        for n, p in pos.items():
            ctx.close(other.arrays[n].pos, p, "loaded-pos", n, tol=0)
        for s in "sl":
            ctx.close(other.arrays.paths[s]["m"], sim.arrays.paths[s]["m"], "loaded-path", s, tol=0)
        if what == "loadmeta":
            ctx.check(json.loads((other.folder_path / "metadata_sim.json").read_text()) == {"a": 1, "b": [2]}, "sim-metadata", "metadata_sim.json is not copied")
        if what != "loadnone":
            same_config(ctx, cu.load_from_file(other.folder_path), want, "loaded-copied")
        other.sim_info.auto_save_load = False
        sim3 = other.create_simulator()
        for s in "sl":
            ctx.close(sim3.arrays.paths[s]["m"], sim.arrays.paths[s]["m"], "simulated-path", s, tol=0)
        if what != "loadnone":
            check_files(ctx, sim3, pos, meta, {k: sim3.arrays.path_type[k[0]]["m"] for k in types}, "from-loaded") if rev != "none" else None
    else:
        s2 = SimulatorSetup(config_path=path(saved[0] / "config.yaml"))
        same_config(ctx, s2.sim_info, want, "config-path")
