"""C18: trajectories pass through their points with the promised timing."""
import itertools
import numpy as np
import matplotlib.pyplot as plt
import aspsim.room.trajectory as tr
PROP = "C18"
TECH = "exhaustive enumeration on the real trajectories: all point sequences over a small set, periods, sample rates and modes, evaluated at every sample of three periods in three orders with plotting in between; compared with arc-length and closed-form positions"
BOUND = dict(quick="all closed walks through 2 to 4 of 5 points (and repeated points in constant-time mode), 6 period/rate pairs, both modes, every sample of 3 periods; walks that nearly close (by 1 mm to 9 cm); circles: 5 radii x 4 period pairs x 3 rates x 5 start angles x 3 centres; all combinations of 1 to 3 of 5 trajectories",
             thorough="walks through 2 to 6 points, 12 period/rate pairs, 4 periods")
CHUNK = 6
PTS = [[0, 0, 0], [1, 0, 0], [1, 2, 0.5], [-1.5, 0.3, 1], [0.2, 0.1, -2]]
PR = [(1, 12), (0.5, 20), (2.5, 4), (0.03, 1000), (0.37, 30), (1, 1), (0.1, 70), (3, 7), (0.3, 10), (1 / 3, 30), (12.0, 2), (0.009, 44100)]

def cases(tier, seed):
    t = tier == "thorough"
    for n in range(2, 7 if t else 5):
        for head in itertools.product(range(5), repeat=n - 2 if n > 2 else 0):
            yield dict(kind="linear", head=list(head), n=n, pr=PR if t else PR[:6], periods=4 if t else 3)
    yield dict(kind="planar")
    for off in (1e-3, 4e-3, 0.02, 0.09) + ((1e-2, 0.3, 2e-4) if t else ()):
        yield dict(kind="nearly", off=off)
    for radius in ([0, 1], [1, 1], [0.5, 2], [0, 0], [2, 2.25]):
        for ra, an in itertools.product([1, 0.5, 2.2, 7], repeat=2):
            yield dict(kind="circle", radius=radius, ra=ra, an=an, srs=[10, 8, 33] + ([100] if t else []))
    for k in (1, 2, 3):
        for which in itertools.product(range(5), repeat=k):
            yield dict(kind="collection", which=list(which))
    for mode in ("constant_speed", "constant_time", "circle"):
        for tot in (0, 1, 3, 11, 12, 13, 200):
            yield dict(kind="array", mode=mode, tot=tot)

def walk(points, frac, mode):
    """position after the fraction of the closed walk through the points"""
    P = np.array(points, dtype=float)
    P = np.concatenate([P, P[:1]]) if not np.allclose(P[0], P[-1]) else P
    d = np.linalg.norm(np.diff(P, axis=0), axis=1)
    marks = np.concatenate([[0], np.cumsum(d)]) / np.sum(d) if mode == "constant_speed" else np.linspace(0, 1, len(P))
    return np.array([[np.interp(f, marks, P[:, k]) for k in range(P.shape[1])] for f in frac])

def look(ctx, traj, ts, want, key, what, plots=True):
    """evaluate forwards, backwards with plots in between, and with numpy indices"""
    k = want.shape[-2] if want.ndim == 3 else 1
    want = want.reshape(len(ts), k, -1)
    got = [np.array(traj.current_pos(int(t))) for t in ts]
    ctx.step(len(ts))
    ctx.check(all(g.shape == want[0].shape for g in got), key + ":shape", f"{what}: {got[0].shape}, expected {want[0].shape}")
    ctx.close(np.array(got), want, key, what, tol=1e-8)
    first = traj.current_pos(0)
    first += 5                     # the returned position belongs to the caller
    if plots:
        fig, ax = plt.subplots()
        for tot in (None, 1, len(ts) // 2, 10 * len(ts) + 10) if not isinstance(traj, tr.TrajectoryCollection) else (1, len(ts) // 2, 10 * len(ts) + 10):
            traj.plot(ax, "x", "name", tot)
        plt.close(fig)
    for t, w in list(zip(ts, want))[::-1]:
        ctx.close(traj.current_pos(np.int64(t)), w, key + ":again", f"{what} at {t}", tol=1e-8)
    ctx.step(len(ts))
    ctx.state(key, what, np.round(np.array(got), 6))
    ctx.trace()

def run_case(ctx, case):
    globals()["run_" + case["kind"]](ctx, case)

def run_linear(ctx, case):
    n = case["n"]
    tails = itertools.product(range(5), repeat=n - len(case["head"]))
    for j, tail in enumerate(tails):
        ids = case["head"] + list(tail)
        pts = [PTS[i] for i in ids]
        if len(set(ids)) == 1:
            continue
        still = any(a == b for a, b in zip(ids, ids[1:])) or (ids[0] == ids[-1] and len(ids) == 2)
        for mode in ("constant_speed", "constant_time"):
            if still and mode == "constant_speed":
                continue
            for q, (period, sr) in enumerate(case["pr"]):
                if n > 3 and (q + j) % 3:
                    continue
                form = [pts, tuple(map(tuple, pts)), np.array(pts, dtype=float), [np.array(p, dtype=float) for p in pts]][(q + j) % 4]
                before = np.array(pts, dtype=float)
                ts = np.arange(int(case["periods"] * period * sr) + 2)
                ts = ts if len(ts) < 150 else ts[:: len(ts) // 120]
                what = f"{ids} {mode} period {period} rate {sr}"
                traj = tr.LinearTrajectory(form, period, sr, mode) if mode != "constant_speed" or q % 2 else tr.LinearTrajectory(form, period, sr)
                look(ctx, traj, ts, walk(pts, (ts / (period * sr)) % 1.0, mode), "linear", what, plots=q == j % 6)
                ctx.check(np.array_equal(np.array(form, dtype=float), before), "points-changed", what)

def run_planar(ctx, case):
    for pts in itertools.permutations([[0, 0], [1, 0], [1, 2], [-1, 1]], 3):
        for mode in ("constant_speed", "constant_time"):
            ts = np.arange(40)
            look(ctx, tr.LinearTrajectory(list(pts), 1, 13, mode), ts, walk(pts, (ts / 13) % 1, mode), "planar", f"{pts} {mode}")

def run_nearly(ctx, case):
    """walks whose last point is close to the first one, but not the same"""
    for axis in range(3):
        for sign in (1, -1):
            for i, j in itertools.permutations(range(4), 2):
                last = list(PTS[i]); last[axis] += sign * case["off"]
                pts = [PTS[i], PTS[j], last]
                for k, (mode, (period, sr)) in enumerate(itertools.product(("constant_speed", "constant_time"), ((1, 100), (0.3, 10), (2.5, 4)))):
                    ts = np.arange(int(2 * period * sr) + 2)
                    look(ctx, tr.LinearTrajectory(pts, period, sr, mode), ts, walk(pts, (ts / (period * sr)) % 1.0, mode), "nearly", f"{pts} {mode} period {period} rate {sr}", plots=False)

def circle(ts, radius, center, ra, an, sr, start):
    rp = (ts / (ra * sr)) % 1.0
    rad = radius[0] + (radius[1] - radius[0]) * np.abs(1 - 2 * rp)
    ang = start + 2 * np.pi * ts / (an * sr)
    return np.stack([center[0] + rad * np.cos(ang), center[1] + rad * np.sin(ang), np.full(len(ts), float(center[2]))], axis=1)

def run_circle(ctx, case):
    for sr in case["srs"]:
        for k, start in enumerate((None, 0, 0.5, np.pi, -2.0)):
            for center in ((0, 0, 0), [1.0, -2.0, 0.5], np.array([0.1, 0.2, -1.0])):
                kw = {} if start is None else dict(start_angle=start)
                r = [tuple, list, np.array][k % 3](case["radius"])
                traj = tr.CircularTrajectory(r, center, case["ra"], case["an"], sr, **kw)
                ts = np.arange(int(3 * max(case["ra"], case["an"]) * sr) + 1)
                ts = ts if len(ts) < 150 else ts[:: len(ts) // 120]
                look(ctx, traj, ts, circle(ts, case["radius"], center, case["ra"], case["an"], sr, start or 0), "circle", f"{case} rate {sr} start {start} centre {center}", plots=k < 2)

def parts():
    ts = np.arange(30)
    out = []
    for i, mode in enumerate(("constant_speed", "constant_time")):
        p = [PTS[i], PTS[i + 1], PTS[i + 2]]
        out.append((lambda p=p, mode=mode: tr.LinearTrajectory(p, 1, 11, mode), walk(p, (ts / 11) % 1, mode)[:, None]))
    out.append((lambda: tr.CircularTrajectory((0.5, 1), (1, 0, 0), 1, 2, 10), circle(ts, (0.5, 1), (1, 0, 0), 1, 2, 10, 0)[:, None]))
    out.append((lambda: tr.Trajectory(lambda t: np.array([[t, 2.0 * t, 1.0]])), np.stack([ts, 2.0 * ts, np.ones(30)], axis=1)[:, None]))
    out.append((lambda: tr.Trajectory(lambda t: np.array([[t, 0, 1.0], [0, t, 2.0]])), np.stack([np.stack([ts, 0 * ts, np.ones(30)], 1), np.stack([0 * ts, ts, 2 * np.ones(30)], 1)], axis=1)))
    return ts, out

def run_collection(ctx, case):
    ts, P = parts()
    trs = [P[i][0]() for i in case["which"]]
    want = np.concatenate([P[i][1] for i in case["which"]], axis=1)
    look(ctx, tr.TrajectoryCollection(trs), ts, want, "collection", f"{case['which']}")
    for t, i in zip(trs, case["which"]):
        look(ctx, t, ts, P[i][1], "part", f"part {i} after its collection")
    if len(trs) == 3:
        look(ctx, tr.TrajectoryCollection([trs[0], tr.TrajectoryCollection(trs[1:])]), ts, want, "nested", f"{case['which']}")

def run_array(ctx, case):
    """as an array of a set-up: created, plotted and updated"""
    import aspsim.array as ar
    from mc import simkit as sk
    from aspsim.simulator import SimulatorSetup
    pts = [PTS[0], PTS[1], PTS[2]]
    traj = tr.CircularTrajectory((0.5, 1), (0.2, 0, 0), 1, 2, 12) if case["mode"] == "circle" else tr.LinearTrajectory(pts, 1, 12, case["mode"])
    ts = np.arange(31)
    want = circle(ts, (0.5, 1), (0.2, 0, 0), 1, 2, 12, 0) if case["mode"] == "circle" else walk(pts, (ts / 12) % 1, case["mode"])
    setup = SimulatorSetup(ctx.dir)
    sk.base_config(setup, dict(tot=case["tot"], buf=5, chunk=5, plot_output="pdf"))
    setup.add_controllable_source("l", np.zeros((1, 3))); setup.add_mics("m", traj)
    ctx.close(setup.arrays["m"].pos, want[:1], "array:start", "position of the array", tol=1e-9)
    sim = setup.create_simulator()
    look(ctx, sim.arrays["m"].trajectory, ts, want, "array", f"{case}")
    sim.arrays.update(7)
    ctx.close(sim.arrays["m"].pos, want[7:8], "array:update", "position of the array", tol=1e-9)
