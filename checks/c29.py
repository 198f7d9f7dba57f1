"""C29: arrays keep their channels, groups and sources consistent."""
import copy, itertools
import numpy as np
import aspsim.array as ar
import aspsim.room.region as reg
import aspsim.room.trajectory as tr
import aspsim.diagnostics.diagnostics as dia
from aspsim.simulator import SimulatorSetup
from mc import simkit as sk
LIGHT = True      # figures are not looked at
PROP = "C29"
TECH = "explicit-state exploration of the real set-up: every sequence of additions, path, type, group and source operations (valid and invalid) up to a depth, checked after each operation against a model of the collection; all group splits, region combinations and rejected arguments enumerated"
BOUND = dict(quick="every sequence of <= 4 of 19 operations; all splits of <= 6 positions into <= 5 groups (empty ones included) for 4 array kinds; 11 region combinations; 18 rejected arguments; merging of finished and unfinished collections",
             thorough="every sequence of <= 5 of 19 operations; all splits of <= 8 positions")
CHUNK = 1
OPS = "abcdefghijklmnopqrs"
NEW = {"a": ("s0", "free", 2), "b": ("s1", "free", 1), "c": ("l0", "ctrl", 2), "d": ("m0", "mic", 3), "e": ("m1", "mic", 2), "f": ("r0", "region", 0), "r": ("s0", "mic", 1)}

def cases(tier, seed):
    t = tier == "thorough"
    for w in itertools.product(OPS, repeat=2):
        yield dict(kind="walk", start="".join(w), depth=5 if t else 4)
    for n in range(0, 9 if t else 7):
        yield dict(kind="groups", n=n, parts=5)
    yield dict(kind="regions")
    yield dict(kind="reject")
    yield dict(kind="merge")

def run_case(ctx, case):
    globals()["run_" + case["kind"]](ctx, case)

def attempt(f):
    try:
        f()
        return True
    except Exception:
        return False

REGION = [reg.Rectangle((1.0, 0.5), (0, 0, 0.2), (0.25, 0.25)), reg.Disc(0.6, (5, 0, 0), (0.3, 0.3))]

class Model:
    def __init__(self):
        self.setup = SimulatorSetup(rng=np.random.default_rng(1))
        si = self.setup.sim_info
        si.tot_samples, si.sim_buffer, si.sim_chunk_size, si.reverb, si.max_room_ir_length, si.samplerate = 6, 6, 3, "none", 4, 1000
        self.order, self.num, self.kind = [], {}, {}
        self.src, self.pos, self.path, self.typ, self.groups, self.k = {}, {}, {}, {}, {}, 0

    def add(self, name, kind, n, pos, src=None, groups=None):
        self.order.append(name)
        self.kind[name], self.num[name], self.pos[name] = kind, n, pos
        if src is not None:
            self.src[name] = src
        self.groups[name] = groups

    def has(self, s, m): return self.kind.get(s) in ("free", "ctrl") and self.kind.get(m) in ("mic", "region")

def table(n, k):
    return sk.TableSource(np.arange(n * 50, dtype=float).reshape(n, 50) + 100 * k)

def step(M, op):
    """performs one operation; returns (was it accepted, should it be)"""
    s = M.setup
    M.k += 1
    if op in NEW:
        name, kind, n = NEW[op]
        want = name not in M.num
        if kind == "free":
            src, pos = table(n, M.k), sk.positions(n, M.k)
            ok = attempt(lambda: s.add_free_source(name, pos, src))
            if want: M.add(name, kind, n, pos, src)
        elif kind == "ctrl":
            pos = sk.positions(n, M.k)
            ok = attempt(lambda: s.add_controllable_source(name, pos))
            if want: M.add(name, kind, n, pos)
        elif kind == "mic":
            pos = sk.positions(n, M.k)
            arg = [pos[:1], pos[1:]] if op == "e" else pos
            ok = attempt(lambda: s.add_mics(name, arg))
            if want: M.add(name, kind, n, pos, groups=[[0], list(range(1, n))] if op == "e" else None)
        else:
            ok = attempt(lambda: s.add_array(ar.RegionArray(name, REGION)))
            p = [r.equally_spaced_points() for r in REGION]
            if want: M.add(name, kind, sum(map(len, p)), np.concatenate(p), groups=[list(range(len(p[0]))), list(range(len(p[0]), sum(map(len, p))))])
        return ok, want
    if op == "g":
        p = np.full((2, 3, 2), M.k, float)
        want = M.has("s0", "m0")
        ok = attempt(lambda: s.set_path("s0", "m0", p))
        if want: M.path["s0", "m0"] = p
    elif op == "h":   # source and microphone channels exchanged
        ok, want = attempt(lambda: s.set_path("s0", "m0", np.ones((3, 2, 2)))), False
    elif op == "i":   # one dimension is missing
        ok, want = attempt(lambda: s.set_path("l0", "m1", np.ones((2, 2)))), False
    elif op == "j":
        src = table(2, 10 + M.k)
        want = M.kind.get("s0") == "free"
        ok = attempt(lambda: s.set_source("s0", src))
        if want: M.src["s0"] = src
    elif op == "k":
        ok, want = attempt(lambda: s.set_source("s0", table(3, M.k))), False
    elif op == "l":
        ok, want = attempt(lambda: s.set_source("l0", table(2, M.k))), False
    elif op == "m":
        want = M.has("s0", "m1")
        ok = attempt(lambda: s.arrays.set_path_types({"s0": {"m1": "direct"}}))
        if want: M.typ["s0", "m1"] = "direct"
    elif op == "n":
        ok, want = attempt(lambda: s.arrays.set_path_types({"m0": {"s0": "direct"}})), False
    elif op == "o":
        want = M.kind.get("m0") == "mic"
        g = [[0, 2], [1]]
        ok = attempt(lambda: s.arrays["m0"].set_groups(g))
        if want: M.groups["m0"] = g
    elif op == "p":   # one array each from another collection
        want = "x0" not in M.num
        c = ar.ArrayCollection()
        src = table(1, M.k)
        px, pm = sk.positions(1, 20 + M.k), sk.positions(1, 21 + M.k)
        c.add_array(ar.MicArray("m9", pm))
        c.add_array(ar.FreeSourceArray("x0", px, src))
        c.set_path_types({"x0": {"m9": "direct"}})
        ok = attempt(lambda: s.add_arrays(c))
        if want:
            M.add("m9", "mic", 1, pm)
            M.add("x0", "free", 1, px, src)
            M.typ["x0", "m9"] = "direct"
    elif op == "q":   # too many microphones
        ok, want = attempt(lambda: s.set_path("s0", "m0", np.ones((2, 4, 2)))), False
    elif op == "s":
        want = M.has("l0", "m1")
        p = np.full((2, 2, 3), -M.k, float)
        ok = attempt(lambda: s.arrays.set_prop_paths({"l0": {"m1": p}}))
        if want: M.path["l0", "m1"] = p
    return ok, want

def verify(ctx, M, word, arrays=None):
    c = M.setup.arrays if arrays is None else arrays
    src = [n for n in M.order if M.kind[n] in ("free", "ctrl")]
    mic = [n for n in M.order if M.kind[n] in ("mic", "region")]
    free = [n for n in M.order if M.kind[n] == "free"]
    w = f"after {word}"
    ctx.check([a.name for a in c] == M.order, "iterate", f"{w}: {[a.name for a in c]} instead of {M.order}")
    ctx.check([a.name for a in c.sources()] == src and list(c.names_src) == src, "sources", f"{w}: {[a.name for a in c.sources()]}")
    ctx.check([a.name for a in c.mics()] == mic and list(c.names_mic) == mic, "mics", f"{w}: {[a.name for a in c.mics()]}")
    ctx.check([a.name for a in c.free_sources()] == free, "free", f"{w}: {[a.name for a in c.free_sources()]}")
    got = [(a.name, b.name) for a, b in c.mic_src_combos()]
    ctx.check(sorted(got) == sorted(itertools.product(src, mic)), "pairs", f"{w}: {got}")
    ctx.check(c.empty() == (not M.order), "empty", w)
    for n in ["s0", "s1", "l0", "m0", "m1", "r0", "m9", "x0", "zz"]:
        ctx.check((n in c) == (n in M.num), "contains", f"{w}: {n}")
    for n in M.order:
        a = c[n]
        ctx.check(a.num == M.num[n] == a.pos.shape[0] and np.array_equal(a.pos, M.pos[n]), "channels", f"{w}: {n}")
        ctx.check(a.is_mic == (n in mic) and a.is_source == (n in src), "kind", f"{w}: {n}")
        g = M.groups[n]
        if g is not None:
            ctx.check(a.num_groups == len(g) == a.metadata["number of groups"] and [list(map(int, x)) for x in a.group_idxs] == g, "groups", f"{w}: {n} has {a.num_groups} groups {a.group_idxs}")
        ctx.check(a.metadata["number"] == a.num, "metadata", f"{w}: {n}")
        if n in free:
            s = a.source
            ctx.check(np.array_equal(s.table, M.src[n].table) and a.metadata["source info"] == M.src[n].metadata, "source", f"{w}: {n} plays another source")
            if arrays is None:
                ctx.check(s is M.src[n], "source-object", f"{w}: {n}")
    for (s, m), p in M.path.items():
        ctx.check(m in c.paths[s] and np.array_equal(c.paths[s][m], p), "path", f"{w}: {s}->{m}")
    if arrays is None:
        for s, m in itertools.product(src, mic):
            ctx.check((m in c.paths[s]) == ((s, m) in M.path), "path-appeared", f"{w}: {s}->{m}")
            ctx.check(c.path_type[s].get(m) == M.typ.get((s, m)), "type", f"{w}: {s}->{m} {c.path_type[s].get(m)}")
    else:
        seen = []
        for a, b, p in c.iter_paths():
            seen.append((a.name, b.name))
            ctx.check(np.shape(p)[:2] == (a.num, b.num) and np.array_equal(p, c.paths[a.name][b.name]), "iter-paths", f"{w}: {a.name}->{b.name}")
        ctx.check(sorted(seen) == sorted(itertools.product(src, mic)), "iter-pairs", f"{w}: {seen}")

def run_walk(ctx, case):
    M = Model()
    word = ""
    for op in case["start"]:
        word += op
        if not apply(ctx, M, op, word):
            return
    rec(ctx, M, word, case["depth"])
    ctx.trace()

def apply(ctx, M, op, word):
    ok, want = step(M, op)
    ctx.step(1)
    if not ctx.check(ok == want, "accepted" if ok else "rejected", f"operation {op} after {word[:-1]!r}"):
        return False
    verify(ctx, M, word)
    ctx.state(tuple(sorted(M.num)), tuple(sorted(M.path)), tuple(sorted(M.typ)), str(M.groups), tuple(M.order))
    return True

def rec(ctx, M, word, depth):
    if len(word) >= depth:
        if any(k in ("free", "ctrl") for k in M.kind.values()) and any(k in ("mic", "region") for k in M.kind.values()):
            sim = M.setup.create_simulator()
            verify(ctx, M, word + " and creation", sim.arrays)
            verify(ctx, M, word + " after creation")
            ctx.trace()
        return
    for op in OPS:
        N = copy.deepcopy(M)
        if apply(ctx, N, op, word + op):
            rec(ctx, N, word + op, depth)

def run_groups(ctx, case):
    n = case["n"]
    pos = sk.positions(n, 3)
    for parts in range(1, case["parts"] + 1):
        for cut in itertools.combinations_with_replacement(range(n + 1), parts - 1):
            b = [0, *cut, n]
            seg = [pos[i:j] for i, j in zip(b, b[1:])]
            want = [list(range(i, j)) for i, j in zip(b, b[1:])]
            for cls in (ar.MicArray, ar.ControllableSourceArray, ar.FreeSourceArray, ar.RegionArray):
                for kind in (list, tuple):
                    arg = kind([s.copy() for s in seg])
                    a = ar.FreeSourceArray("x", arg, table(n, 0)) if cls is ar.FreeSourceArray else ar.RegionArray("x", REGION[0], arg) if cls is ar.RegionArray else cls("x", arg)
                    ctx.step(1)
                    w = f"{cls.__name__} of {n} positions cut at {b}"
                    ctx.check(np.array_equal(a.pos, pos) and a.num == n, "groups:pos", w)
                    ctx.check(a.num_groups == parts and [list(map(int, g)) for g in a.group_idxs] == want, "groups:indices", f"{w}: {a.group_idxs}")
                    ctx.check(len(a.pos_segments) == parts and all(np.array_equal(x, y) for x, y in zip(a.pos_segments, seg)), "groups:segments", w)
                    ctx.check(a.metadata["number of groups"] == parts and a.metadata["number"] == n and a.metadata["dynamic"] is False and a.metadata["type"] == cls.__name__, "groups:metadata", f"{w}: {a.metadata}")
                    ctx.check(not a.update(3) and np.array_equal(a.pos, pos), "groups:update", w)
                    if cls is ar.FreeSourceArray:
                        ctx.check(np.array_equal(a.get_samples(4), table(n, 0).table[:, :4]), "groups:play", w)
        ctx.state(n, parts)
    a = ar.MicArray("x", pos.copy())
    ctx.check(a.num == n and a.num_groups == 1 and len(a.pos_segments) == 1 and np.array_equal(a.pos_segments[0], pos), "groups:plain", f"{n}")
    if n:
        # every regrouping of the channels
        for lab in itertools.product(range(min(3, n)), repeat=min(n, 5)):
            g = [[i for i in range(len(lab)) if lab[i] == k] for k in sorted(set(lab))]
            a.set_groups(g)
            ctx.check(a.num_groups == len(g) == a.metadata["number of groups"] and [list(map(int, x)) for x in a.group_idxs] == g and np.array_equal(a.pos, pos), "groups:set", f"{g}")
            ctx.step(1)
        t = tr.Trajectory(lambda k: pos + 0.1 * k)
        m = ar.MicArray("x", t)
        ctx.check(m.dynamic and m.num == n and m.num_groups == 1 and np.array_equal(m.pos, pos) and m.metadata["dynamic"] is True, "moving", f"{n}")
        for k in (0, 1, 5, 2):
            ctx.check(m.update(k) and np.allclose(m.pos, pos + 0.1 * k), "moving:update", f"{n} at {k}")
    ctx.trace()

def run_regions(ctx, case):
    R = REGION + [reg.Cuboid((0.4, 0.4, 0.4), (0, 5, 0), (0.2, 0.2, 0.2)), reg.Rectangle((0.4, 0.4), (0, -5, 0), (0.2, 0.2))]
    for n in (1, 2, 3):
        for idx in itertools.permutations(range(4), n):
            parts = [R[i] for i in idx]
            pts = [p.equally_spaced_points() for p in parts]
            whole = np.concatenate(pts)
            for arg in ([list(parts), tuple(parts)] + ([parts[0]] if n == 1 else [])):
                a = ar.RegionArray("r", arg)
                w = f"regions {idx} as {type(arg).__name__}"
                ctx.step(1)
                ctx.check(np.array_equal(a.pos, whole) and a.num == len(whole), "region:pos", f"{w}: {a.pos.shape}")
                ctx.check(list(a.region_segments) == parts, "region:segments", w)
                ctx.check(a.num_groups == n and [list(map(int, g)) for g in a.group_idxs] == [list(range(s, s + len(p))) for s, p in zip(np.cumsum([0] + [len(p) for p in pts]), pts)], "region:groups", w)
                ctx.check(a.metadata["region shape"] == type(a.region).__name__ and (n > 1 or a.region is parts[0]), "region:shape", f"{w}: {a.metadata}")
                ctx.check(np.array_equal(a.region.equally_spaced_points(), whole), "region:region", w)
                own = sk.positions(2, 1)
                b = ar.RegionArray("r", arg, own)
                ctx.check(b.num == 2 and np.array_equal(b.pos, own) and list(b.region_segments) == parts, "region:own", w)
            ctx.state(idx)
    # same signals as an ordinary array at these points
    d = ctx.rng("c29").normal(size=(1, 60))
    setup = SimulatorSetup()
    si = setup.sim_info
    si.tot_samples, si.sim_buffer, si.sim_chunk_size, si.reverb, si.max_room_ir_length, si.samplerate, si.rt60, si.extra_delay = 30, 12, 5, "ism", 40, 500, 0.3, 2
    si.room_size, si.room_center = [14, 14, 3], [1, 1, 0.3]
    setup.add_free_source("s", np.array([[0.3, 0.2, 0.5]]), sk.TableSource(d))
    r = ar.RegionArray("r", REGION)
    setup.add_array(r)
    setup.add_mics("m", r.region.equally_spaced_points())
    sim = setup.create_simulator()
    for n in ("r", "m"):
        sim.diag.add_diagnostic(n, dia.RecordSignal(n, sim.sim_info, num_channels=r.num))
    sim.run_simulation()
    ctx.step(30)
    ctx.check(np.any(np.abs(sim.diag["r"].get_output()) > 1e-6), "region:silent", "")
    ctx.close(sim.diag["r"].get_output(), sim.diag["m"].get_output(), "region:signal", "signal of a region", tol=1e-9)
    ctx.trace()

def run_reject(ctx, case):
    P = sk.positions(2, 0)
    unit = np.array([[1.0, 0, 0], [0, 0, 1]])
    kinds = ["omni", "cardioid"]
    bad = {
        "source with too few channels": lambda: ar.FreeSourceArray("x", P, table(1, 0)),
        "source with too many channels": lambda: ar.FreeSourceArray("x", P, table(3, 0)),
        "grouped source mismatch": lambda: ar.FreeSourceArray("x", [P, P[:1]], table(2, 0)),
        "flat positions": lambda: ar.MicArray("x", P[0]),
        "three dimensions": lambda: ar.MicArray("x", P[None]),
        "list of lists": lambda: ar.MicArray("x", P.tolist()),
        "a number": lambda: ar.MicArray("x", 3.0),
        "text": lambda: ar.MicArray("x", "pos"),
        "group given as a list": lambda: ar.MicArray("x", [P, P.tolist()]),
        "type without direction": lambda: ar.MicArray("x", P, directivity_type=kinds),
        "direction without type": lambda: ar.MicArray("x", P, directivity_dir=unit),
        "too few types": lambda: ar.MicArray("x", P, directivity_type=kinds[:1], directivity_dir=unit),
        "too many types": lambda: ar.MicArray("x", P, directivity_type=kinds + ["omni"], directivity_dir=unit),
        "too few directions": lambda: ar.MicArray("x", P, directivity_type=kinds, directivity_dir=unit[:1]),
        "unknown type": lambda: ar.MicArray("x", P, directivity_type=["omni", "heart"], directivity_dir=unit),
        "direction too long": lambda: ar.MicArray("x", P, directivity_type=kinds, directivity_dir=unit * np.array([[1.0], [1.1]])),
        "overlapping regions": lambda: ar.RegionArray("x", [REGION[0], reg.Rectangle((0.5, 0.5), (0.1, 0.1, 0.2), (0.25, 0.25))]),
        "no type of array": lambda: ar.ArrayCollection().add_array(ar.Array("x", P)),
    }
    for name, f in bad.items():
        ctx.check(not attempt(f), "reject", f"accepted: {name}")
        ctx.step(1)
        ctx.state(name)
    a = ar.MicArray("x", P, directivity_type=kinds, directivity_dir=unit)
    ctx.check(list(a.directivity_type) == kinds and np.array_equal(a.directivity_dir, unit), "directivity", "kept")
    ctx.check(list(ar.MicArray("x", P).directivity_type) == ["omni", "omni"], "directivity", "default")
    ctx.trace()

def run_merge(ctx, case):
    """arrays taken over from another collection, before or after it was simulated, keep their explicit paths and types"""
    for finished in (False, True):
        for mask in range(16):
            for typ in (None, "none", "direct"):
                S = SimulatorSetup()
                S.sim_info.reverb = "direct"
                for s, n in (("a", 2), ("b", 2)):
                    S.add_free_source(s, sk.positions(n, 1), table(n, 1))
                for m, n in (("u", 2), ("v", 2)):
                    S.add_mics(m, sk.positions(n, 2))
                pairs = [("a", "u"), ("a", "v"), ("b", "u"), ("b", "v")]
                P = {}
                for i, p in enumerate(pairs):
                    if mask >> i & 1:
                        P[p] = np.full((2, 2, 3), i + 1.5)
                        S.set_path(*p, P[p])
                if typ:
                    S.arrays.set_path_types({"b": {"v": typ}})
                src = S.create_simulator().arrays if finished else S.arrays
                T = SimulatorSetup()
                T.sim_info.reverb = "none"
                T.add_mics("w", sk.positions(1, 5))
                T.add_arrays(src)
                if ("b", "v") in P and typ:
                    continue     # a path and a type for the same pair: see C10
                new = T.create_simulator().arrays
                ctx.step(1)
                for p in pairs:
                    got = new.paths[p[0]][p[1]]
                    w = f"{p} of {'finished' if finished else 'unfinished'} collection with paths {sorted(P)} and type {typ}"
                    if p in P:
                        ctx.check(np.array_equal(got, P[p]), "merge:path", f"{w}: explicit path lost")
                    elif p == ("b", "v") and typ:
                        ctx.check(np.any(got) == (typ == "direct"), "merge:type", w)
                    else:
                        # the default of the collection is only chosen once it is simulated
                        ctx.check(np.any(got) == finished, "merge:default", w)
                ctx.check(not np.any(new.paths["a"]["w"]), "merge:new", "new pair")
                ctx.state(finished, mask, typ)
    ctx.trace()
