"""C33: the picture of a set-up shows every array, region and the room at its place."""
import itertools
import numpy as np
import aspsim.array as ar
import aspsim.room.region as reg
import aspsim.room.trajectory as tr
from mc import boot, simkit as sk
from aspsim.simulator import SimulatorSetup
PROP = "C33"
TECH = "exhaustive enumeration on the real set-up: all ordered sequences of arrays of 14 kinds up to a length, all propagation types of the pairs, room placements, run lengths and file formats; everything drawn is recorded and compared with the arrays"
BOUND = dict(quick="all ordered sequences of <= 2 of 15 arrays and 1 in 5 of those of 3, 5 rooms, 2 formats, all 3^4 propagation types of 2 x 2 arrays; moving arrays with every run length to 40 samples",
             thorough="all ordered sequences of <= 3 of 15 arrays; run lengths to 120")
ASSUMPTIONS = ["what is drawn is read from the figure object when it is saved; rendering by matplotlib is trusted"]
SR = 1000
LIN = np.array([[0.0, 0.0, 0.1], [0.4, 0.0, 0.1], [0.4, 0.3, 0.1]])

def P(n, k): return sk.positions(n, k)
def lin(k, mode="constant_speed", period=0.036):
    return tr.LinearTrajectory(LIN * (1 + k) + 0.05 * k, period, SR, mode)
REGIONS = {
    "rect": lambda: (reg.Rectangle((0.6, 0.4), (0.3, -0.2, 0.1), (0.2, 0.2)), [(0.0, -0.4, 0.6, 0.0)]),
    "disc": lambda: (reg.Disc(0.5, (-0.4, 0.2, 0.1), (0.3, 0.3)), [(-0.9, -0.3, 0.1, 0.7)]),
    "cuboid": lambda: (reg.Cuboid((0.5, 0.3, 0.2), (0.1, 0.6, 0), (0.1, 0.1, 0.1)), [(-0.15, 0.45, 0.35, 0.75)]),
    "ball": lambda: (reg.Ball(0.3, (0.5, 0.5, 0.2), (0.2, 0.2, 0.2)), [(0.2, 0.2, 0.8, 0.8)]),
    "cylinder": lambda: (reg.Cylinder(0.25, 0.4, (-0.5, -0.6, 0), (0.2, 0.2, 0.2)), [(-0.75, -0.85, -0.25, -0.35)]),
}
def two():
    a, b = REGIONS["rect"](), REGIONS["cylinder"]()
    return [a[0], b[0]], a[1] + b[1]

def corners(traj_points, times, tot):
    """the corners passed within the run; one that is reached exactly at its end may be drawn or not"""
    return [np.array([p[:2] for p, t in zip(traj_points, times) if t == 0 or t < tot + e]) for e in (-1e-6, 1e-6)]

def make(kind, name, k, tot):
    """the array and what must be drawn for it: points (exact), boxes, or a function for positions that are allowed"""
    if kind == "mic": p = P(3, k); return ar.MicArray(name, p), dict(points=p)
    if kind == "groups": p = P(4, k); return ar.MicArray(name, [p[:1], p[1:]]), dict(points=p)
    if kind == "empty": return ar.MicArray(name, np.zeros((0, 3))), dict(points=np.zeros((0, 3)))
    if kind == "ctrl": p = P(2, k); return ar.ControllableSourceArray(name, p), dict(points=p)
    if kind == "free": p = P(2, k); return ar.FreeSourceArray(name, p, sk.TableSource(np.zeros((2, 50)))), dict(points=p)
    if kind in REGIONS: r, box = REGIONS[kind](); return ar.RegionArray(name, r), dict(boxes=box)
    if kind == "two": r, box = two(); return ar.RegionArray(name, r), dict(boxes=box)
    if kind in ("lin", "lintime"):
        t = lin(k, "constant_time" if kind == "lintime" else "constant_speed")
        pts = np.concatenate((LIN, LIN[:1])) * (1 + k) + 0.05 * k
        d = np.linalg.norm(np.diff(pts, axis=0), axis=-1)
        times = np.concatenate(([0], np.cumsum(d))) / d.sum() * 36 if kind == "lin" else np.arange(4) * 12.0
        return ar.MicArray(name, t), dict(corners=(pts, times))
    if kind == "circle":
        t = tr.CircularTrajectory((0.2, 0.5), (0.1, 0.2, 0.0), 0.03, 0.02, SR)
        return ar.MicArray(name, t), dict(track=t, n=30)
    if kind == "both":
        a, b = lin(k), lin(k + 1)
        ca = np.concatenate((LIN, LIN[:1])) * (1 + k) + 0.05 * k
        cb = np.concatenate((LIN, LIN[:1])) * (2 + k) + 0.05 * (k + 1)
        return ar.MicArray(name, tr.TrajectoryCollection([a, b])), dict(either=[ca, cb])
    raise KeyError(kind)
KINDS = ["mic", "groups", "empty", "ctrl", "free", "rect", "disc", "cuboid", "ball", "cylinder", "two", "lin", "lintime", "circle", "both"]
ROOMS = [([4.0, 4.0, 3.0], [0.0, 0.0, 0.0]), ([5.0, 3.5, 2.5], [0.25, -0.5, 0.25]), ((3.5, 6.0, 2.5), (-0.1, 1.0, 0.0)), ([6, 5, 4], [1, 0, 0]), ([4.5, 4.0, 3.0], [0.0, 0.3, 0.2])]

def cases(tier, seed):
    t = tier == "thorough"
    for n in (1, 2, 3):
        for i, w in enumerate(itertools.product(KINDS, repeat=n)):
            if n < 3 or t or i % 5 == 0:
                yield dict(kind="sequence", word=list(w), k=i)
    for w in itertools.product(["none", "ism", "random"], repeat=4):
        yield dict(kind="types", types=list(w))
    for kind in ("lin", "lintime", "circle", "both"):
        for lo in range(0, 120 if t else 40, 10):
            yield dict(kind="length", what=kind, tots=list(range(max(lo, 1), lo + 10)))
    yield dict(kind="nofolder")

def new_setup(ctx, room, fmt, tot=20, folder="figs"):
    d = None
    if folder:
        d = ctx.dir / folder
        d.mkdir(exist_ok=True)
    setup = SimulatorSetup(d, None, rng=np.random.default_rng(1))
    si = sk.base_config(setup, dict(tot=tot, buf=10, chunk=10, sr=SR, plot_output=fmt, irlen=4))
    si.room_size, si.room_center = room
    return setup

def near(a, b): return np.shape(a) == np.shape(b) and np.allclose(a, b, atol=1e-6)

def verify(ctx, sim, want, room, fmt, tot, w):
    files = [p for p in sim.folder_path.iterdir() if p.stem == "array_pos" and p.suffix != ".json"]
    if not ctx.check([p.name for p in files] == [f"array_pos.{fmt}"], "file", f"{w}: {[p.name for p in files]}"):
        return
    recs = [r for r in boot.FIGS if r["path"] == str(files[0])]
    if not ctx.check(len(recs) == 1, "drawn-once", f"{w}: drawn {len(recs)} times"):
        return
    r = recs[0]
    pts, boxes, free = {}, {}, []
    for lab, x, y in r["lines"]:
        pts.setdefault(lab, []).append(np.stack([x, y], -1))
    for lab, xy in r["points"]:
        pts.setdefault(lab, []).append(xy)
    for lab, box in r["patches"]:
        if lab in want: boxes.setdefault(lab, []).append(box)
        else: free.append(box)
    for name, (a, exp) in want.items():
        got = pts.get(name, [])
        if "points" in exp:
            g = np.concatenate(got) if got else np.zeros((0, 2))
            ctx.check(near(np.array(sorted(map(tuple, g))).reshape(-1, 2), np.array(sorted(map(tuple, exp["points"][:, :2]))).reshape(-1, 2)), "array", f"{w}: {name} drawn at {g.tolist()}, is at {exp['points'][:, :2].tolist()}")
        elif "boxes" in exp:
            ctx.check(near(sorted(boxes.get(name, [])), sorted(exp["boxes"])), "region", f"{w}: region {name} drawn as {boxes.get(name)}, is {exp['boxes']}")
        elif "corners" in exp:
            c = corners(*exp["corners"], tot)
            ctx.check(len(got) == 1 and any(near(got[0], x) for x in c), "moving", f"{w}: {name} drawn through {[g.tolist() for g in got]}, passes {c[-1].tolist()} in {tot} samples")
        elif "track" in exp:
            ok = len(got) == 1 and len(got[0]) >= 2
            if ctx.check(ok, "moving", f"{w}: {name} has {len(got)} lines"):
                true = np.concatenate([exp["track"].current_pos(i)[:, :2] for i in range(exp["n"])])
                ctx.check(all(np.min(np.linalg.norm(true - p, axis=-1)) < 1e-6 for p in got[0]), "moving", f"{w}: {name} is drawn outside its track")
        elif "either" in exp:
            ctx.check(len(got) == len(exp["either"]) and all(len(g) and near(g, e[:len(g), :2]) for g, e in zip(got, exp["either"])), "moving", f"{w}: {name} drawn through {[g.tolist() for g in got]}")
    ctx.check({l for l in list(pts) + list(boxes)} >= {n for n in want} and {l for l in pts if not l.startswith("_")} <= set(want), "names", f"{w}: drawn {sorted(pts)} {sorted(boxes)}")
    ism = any(t == "ism" for s in sim.arrays.path_type.values() for t in s.values())
    size, center = np.array(room[0], float)[:2], np.array(room[1], float)[:2]
    box = [(*(center - size / 2), *(center + size / 2))]
    ctx.check(near(free, box if ism else []), "room", f"{w}: room drawn as {free}, is {box if ism else 'not simulated'}")
    legend = set(r["text"][0][3:])
    ctx.check(legend == set(want), "legend", f"{w}: legend {sorted(legend)}")

def place(ctx, words, room, fmt, tot, default="none"):
    setup = new_setup(ctx, room, fmt, tot)
    setup.sim_info.reverb = default
    want = {}
    for k, kind in enumerate(words):
        a, exp = make(kind, f"a{k}{kind}", k, tot)
        setup.add_array(a)
        want[a.name] = (a, exp)
    return setup, want

def run_case(ctx, case):
    boot.FIGS.clear()
    if case["kind"] == "sequence":
        k = case["k"]
        room, fmt = ROOMS[k % 5], ("pdf", "svg")[k % 2]
        setup, want = place(ctx, case["word"], room, fmt, 20, "ism" if k % 3 == 0 else "none")
        sim = setup.create_simulator()
        ctx.step()
        verify(ctx, sim, want, room, fmt, 20, str(case["word"]))
        sim2 = setup.create_simulator()
        verify(ctx, sim2, want, room, fmt, 20, f"{case['word']} again")
        ctx.state(case["word"])
    elif case["kind"] == "types":
        for j, room in enumerate(ROOMS):
            fmt = ("pdf", "svg")[j % 2]
            setup, want = place(ctx, ["ctrl", "mic", "free", "groups"], room, fmt, 20, ("none", "random", "ism")[j % 3])
            src, mic = ["a0ctrl", "a2free"], ["a1mic", "a3groups"]
            for (s, m), t in zip(itertools.product(src, mic), case["types"]):
                setup.arrays.set_path_types({s: {m: t}})
            verify(ctx, setup.create_simulator(), want, room, fmt, 20, f"types {case['types']}, room {room}")
            ctx.step()
        ctx.state(case["types"])
    elif case["kind"] == "length":
        for tot in case["tots"]:
            setup, want = place(ctx, [case["what"], "mic"], ROOMS[tot % 5], "pdf", tot)
            verify(ctx, setup.create_simulator(), want, ROOMS[tot % 5], "pdf", tot, f"{case['what']} for {tot} samples")
            ctx.step(); ctx.state(case["what"], tot)
    else:
        for folder, fmt in ((None, "pdf"), ("figs", "none"), (None, "none")):
            n = len(boot.FIGS)
            setup = new_setup(ctx, ROOMS[0], fmt, folder=folder)
            setup.add_array(make("mic", "m", 0, 20)[0])
            sim = setup.create_simulator()
            ctx.check(len(boot.FIGS) == n and sim.folder_path is None and not [p for p in ctx.dir.rglob("*") if p.is_file()], "nothing", f"folder {folder}, format {fmt}: {len(boot.FIGS) - n} figures saved")
            ctx.step(); ctx.state(folder, fmt)
    import matplotlib.pyplot as plt
    plt.close("all")
    ctx.trace()
