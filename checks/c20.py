"""C20: regions contain exactly their points."""
import itertools
import numpy as np
import matplotlib.pyplot as plt
import aspsim.room.region as reg
PROP = "C20"
TECH = "exhaustive enumeration on the real regions: all shapes over small parameter sets, every query point of a lattice that contains boundaries and corners (together, alone, reversed), random numbers replaced by the full product of a grid of values, all pairs and triples of parts; compared with the geometric definitions"
BOUND = dict(quick="6 shapes x 3-6 sizes x 3 centres x 4-5 spacings, ~1000 query points each, 4096 random choices each; all ordered pairs and triples of 5 parts per dimension; all pairs and triples of touching cells in every order; every choice of part for up to 3 points",
             thorough="all sizes x 5 centres x 7 spacings; ordered triples of 6 parts; 32768 random choices")
CHUNK = 4
CENTRES = [[0, 0, 0], [1, -2, 0.5], [-0.25, 3.125, 1.75], [10, 0.5, -4], [0.1, 0.2, 0.3]]
SPACINGS = [0.5, 0.25, 0.75, 0.3, 1.0, 0.2, 0.7]
SHAPES = ["cuboid", "rect3", "rect2", "disc3", "disc2", "ball", "cyl"]
SIZES = dict(cuboid=[[1, 1, 1], [2, 1, 1.5], [1.25, 3, 1], [0.6, 1.4, 2.2]], rect3=[[1, 1], [2, 1.5], [1.25, 3], [0.6, 1.4]], rect2=[[1, 1], [2, 1.5], [0.6, 1.4]],
             disc3=[1, 0.5, 1.375, 1.1], disc2=[1, 1.25, 0.7], ball=[1, 0.75, 1.1], cyl=[[1, 1], [0.5, 2], [1.25, 0.75], [0.7, 1.4]])

class Script:
    """random numbers 0 <= u < 1 enumerated: call j walks through digit j of the index, so that n = g^3 samples see all combinations of three values"""
    def __init__(self, g=16):
        self.g, self.j, self.real = g, 0, np.random.default_rng(5)
    def random(self, size=None, *a, **k):
        shape = () if size is None else tuple(np.atleast_1d(size))
        n = int(shape[0]) if shape else 1
        cols = int(np.prod(shape[1:])) if len(shape) > 1 else 1
        i = np.arange(n)
        out = np.stack([((i // self.g ** ((self.j + c) % 3)) % self.g + 0.5) / self.g for c in range(cols)], axis=1) if cols else np.zeros((n, 0))
        self.j += cols
        return out.reshape(shape) if shape else float(out[0, 0])
    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = np.asarray(low, float), np.asarray(high, float)
        size = size if size is not None else (np.broadcast_shapes(low.shape, high.shape) or None)
        return low + (high - low) * self.random(size)
    def __getattr__(self, name):
        return getattr(self.real, name)

def dim(shape):
    return 2 if shape in ("rect2", "disc2") else 3
def axes(shape):
    return 2 if shape[:4] in ("rect", "disc") else 3

def make(shape, size, centre, spacing, rng=None):
    c = centre[:dim(shape)]
    sp = list(np.broadcast_to(spacing, axes(shape)))
    if shape == "cuboid":
        return reg.Cuboid(size, c, sp, rng=rng)
    if shape.startswith("rect"):
        return reg.Rectangle(size, c, sp, dim(shape), rng=rng)
    if shape.startswith("disc"):
        return reg.Disc(size, c, sp, dim(shape), rng=rng)
    if shape == "ball":
        return reg.Ball(size, c, sp, rng=rng)
    return reg.Cylinder(size[0], size[1], c, sp, rng=rng)

def volume(shape, size):
    return dict(cuboid=lambda: np.prod(size), rect3=lambda: np.prod(size), rect2=lambda: np.prod(size), disc3=lambda: np.pi * size ** 2, disc2=lambda: np.pi * size ** 2,
                ball=lambda: 4 / 3 * np.pi * size ** 3, cyl=lambda: np.pi * size[0] ** 2 * size[1])[shape]()

def depth(shape, size, centre, pts, pad=0):
    """distance-like value per point: negative outside, positive inside, 0 on the boundary"""
    d = np.asarray(pts, float) - np.asarray(centre, float)[:np.shape(pts)[1]]
    if shape == "cuboid":
        return np.min(np.array(size) / 2 + pad - np.abs(d), axis=1)
    if shape == "ball":
        return size - np.linalg.norm(d, axis=1)
    if shape == "cyl":
        return np.minimum(size[0] - np.linalg.norm(d[:, :2], axis=1), size[1] / 2 - np.abs(d[:, 2]))
    if shape.startswith("rect"):
        flat = np.min(np.array(size) / 2 + pad - np.abs(d[:, :2]), axis=1)
    else:
        flat = size - np.linalg.norm(d[:, :2], axis=1)
    if d.shape[1] == 3:
        flat = np.where(np.abs(d[:, 2]) < 1e-9, flat, -1)
    return flat

def extent(shape, size):
    return (list(size) if shape[:4] in ("cubo", "rect") else [2 * size] * axes(shape) if shape != "cyl" else [2 * size[0], 2 * size[0], size[1]])

def grid(shape, size, centre, spacing):
    """all lattice points of the definition, and which of them lie so close to a curved boundary that rounding decides"""
    sp = np.broadcast_to(spacing, axes(shape))
    rnd = np.ceil if shape[:4] in ("disc", "cyl") else np.floor
    ax = [(np.arange(n) - (n - 1) / 2) * s for n, s in zip([int(rnd(round(e / s, 7))) for e, s in zip(extent(shape, size), sp)], sp)]
    pts = np.array(list(itertools.product(*ax)))
    if dim(shape) > axes(shape):
        pts = np.concatenate([pts, np.zeros((len(pts), 1))], axis=1)
    pts = pts + np.array(centre, float)[:dim(shape)]
    d = depth(shape, size, centre, pts)
    return pts[d > 1e-9], pts[np.abs(d) <= 1e-9]

def rows(a):
    a = np.round(np.asarray(a, float), 7) + 0.0
    return sorted(map(tuple, a.tolist()))

def cases(tier, seed):
    t = tier == "thorough"
    for shape in SHAPES:
        for si in range(len(SIZES[shape])):
            for ci in range(5 if t else 3):
                yield dict(kind="shape", shape=shape, si=si, ci=(ci + (si if not t else 0)) % 5, spacings=SPACINGS if t else [SPACINGS[(k + si + ci) % 7] for k in (0, 1, 2, 4)], g=32 if t else 16)
    for group in ("volume", "flat3", "flat2"):
        for k in (2, 3):
            for which in itertools.permutations(range(6 if t else 5), k):
                yield dict(kind="combined", group=group, which=list(which))
        for a, b in itertools.product(range(5), repeat=2):
            yield dict(kind="overlap", group=group, a=a, b=b)

    cells = list(itertools.product((0, 1), repeat=3))
    for shape in TOUCH:
        ax = 3 if shape in ("cuboid", "ball", "cyl") else 2
        mine = [c for c in cells if ax == 3 or c[2] == 0]
        for k in (2, 3) if not t else (2, 3, 4):
            sets = [list(map(list, c)) for c in itertools.combinations(mine, k)]
            for lo in range(0, len(sets), 8):
                yield dict(kind="touch", shape=shape, offsets=sets[lo:lo + 8])

def run_case(ctx, case):
    globals()["run_" + case["kind"]](ctx, case)

def query(ctx, region, f, pts, key, what, curved):
    """the membership of every point together, alone, reversed and in mixed company"""
    d = f(pts)
    sure = np.abs(d) > 1e-9
    onaxis = np.sum(np.abs(pts - region.center[:pts.shape[1]]) > 1e-12, axis=1) <= 1
    exact = np.all(np.asarray(pts * 1024) == np.round(pts * 1024)) and np.all(np.asarray(region.center) * 1024 == np.round(np.asarray(region.center) * 1024))
    decided = sure | (exact & ((not curved) | onaxis))
    want = d >= (0 if exact else -1e-12)
    got = np.asarray(region.is_in_region(pts.copy()))
    ctx.step(len(pts))
    if not ctx.check(got.shape == (len(pts),), key + ":shape", f"{what}: {got.shape} for {len(pts)} points"):
        return
    bad = np.nonzero(decided & (got.astype(bool) != want))[0]
    ctx.check(not len(bad), key, f"{what}: point {pts[bad[0]].tolist() if len(bad) else ''} is reported {'inside' if len(bad) and got[bad[0]] else 'outside'}")
    rev = np.asarray(region.is_in_region(pts[::-1].copy()))
    ctx.check(rev.shape == got.shape and np.array_equal(rev[::-1], got), key + ":order", f"{what}: the order of the points matters")
    stride = max(1, len(pts) // 40)
    for i in range(0, len(pts), stride):
        one = np.asarray(region.is_in_region(pts[i:i + 1].copy()))
        ctx.check(one.size == 1 and (not decided[i] or bool(one.reshape(-1)[0]) == bool(want[i])), key + ":alone", f"{what}: point {pts[i].tolist()} alone")
    ctx.step(len(pts) + len(pts) // stride)
    ctx.state(key, what, got)

def run_shape(ctx, case):
    shape, size, centre = case["shape"], SIZES[case["shape"]][case["si"]], CENTRES[case["ci"]]
    what = f"{shape} {size} at {centre}"
    d = dim(shape)
    curved = shape[:4] in ("disc", "ball", "cyl")
    for form in range(2):
        cen = [centre, tuple(centre)][form] if form == 0 else np.array(centre, float)
        r = make(shape, size, cen, case["spacings"][0])
        ctx.close(r.volume, volume(shape, size), "volume", what)
        ext = extent(shape, size)
        marks = [sorted({e / 2 * q for q in (-1.5, -1, -0.5, 0, 0.5, 0.75, 1, 1.25)} | {0.25, -e / 2 - 0.125}) for e in ext]
        if d > len(ext):
            marks.append([0, 0.25, -1])
        pts = np.array(list(itertools.product(*marks))) + np.array(centre, float)[:d]
        query(ctx, r, lambda p: depth(shape, size, centre, p), pts, "inside", what, curved)
        onplane = pts[np.abs(pts[:, -1] - centre[d - 1]) < 1e-9]
        query(ctx, r, lambda p: depth(shape, size, centre, p), onplane, "inside", what, curved)
        if shape == "cyl":
            for p in pts[::97]:
                w = depth(shape, size, centre, p[None])[0]
                ctx.check(abs(w) < 1e-9 or bool(np.all(r.is_in_region(p.copy()))) == (w > 0), "inside:single", f"{what}: {p.tolist()}")
        if shape in ("cuboid", "rect2", "rect3"):
            for pad in (0.125, 0.5):
                w = depth(shape, size, centre, pts, pad)
                got = np.asarray(r.is_in_region(pts.copy(), [[pad] * len(ext)]))
                ctx.check(got.shape == w.shape and np.array_equal(got[np.abs(w) > 1e-9], (w > 0)[np.abs(w) > 1e-9]), "padding", f"{what} padding {pad}")
            pad = [[0.5] + [0] * (len(ext) - 1)]
            w = depth(shape, [size[0] + 1] + list(size[1:]), centre, pts)
            got = np.asarray(r.is_in_region(pts.copy(), pad))
            ctx.check(got.shape == w.shape and np.array_equal(got[np.abs(w) > 1e-9], (w > 0)[np.abs(w) > 1e-9]), "padding", f"{what} padding along x")
    for k, s in enumerate(case["spacings"]):
        spacing = [s] * axes(shape) if k % 2 == 0 else [s, case["spacings"][k - 1], s][:axes(shape)]
        if shape in ("cuboid", "rect2", "rect3", "ball") and min(e / p for e, p in zip(extent(shape, size), spacing)) < 1:
            continue
        r = make(shape, size, centre, spacing)
        surely, maybe = grid(shape, size, centre, spacing)
        for attempt in range(2):
            pts = r.equally_spaced_points()
            ctx.step()
            if not ctx.check(pts.ndim == 2 and pts.shape[1] == d, "grid:shape", f"{what} spacing {spacing}: {pts.shape}"):
                return
            have, sure, may = rows(pts), rows(surely), set(rows(maybe))
            ctx.check([p for p in have if p not in may] == sure, "grid", f"{what} spacing {spacing}: {len(have)} points, expected {len(sure)} (to {len(sure) + len(may)})")
            ctx.check(len(set(have)) == len(have), "grid:repeated", f"{what} spacing {spacing}")
            inside = np.asarray(r.is_in_region(pts))
            ctx.check(inside.shape == (len(pts),) and np.all(inside[depth(shape, size, centre, pts) > 1e-9]), "grid:outside", f"{what} spacing {spacing}")
            pts += 100
        if shape == "cuboid":
            q = make(shape, size, centre, 1)
            for arg in (spacing, spacing[0]):
                full = spacing if isinstance(arg, list) else [arg] * 3
                if min(e / p for e, p in zip(extent(shape, size), full)) < 1:
                    continue
                ctx.check(rows(q.equally_spaced_points(arg)) == rows(grid(shape, size, centre, full)[0]), "grid:argument", f"{what} distance {arg}")
        ctx.state("grid", what, spacing, np.round(np.array(have), 6))
    g = case["g"]
    r = make(shape, size, centre, 0.25, Script(g))
    n = g ** 3
    for attempt in range(2):
        pts = r.sample_points(n)
        ctx.step(n)
        if not ctx.check(np.shape(pts) == (n, d), "samples:shape", f"{what}: {np.shape(pts)}"):
            return
        ctx.check(np.all(depth(shape, size, centre, pts) >= -1e-9), "samples:outside", f"{what}: sampled a point outside")
        ctx.check(np.all(r.is_in_region(pts[depth(shape, size, centre, pts) > 1e-9])), "samples:inside", what)
        rel = (pts - np.array(centre, float)[:d]) / (np.array(extent(shape, size) + [1] * (d - axes(shape)))[:d] / 2)
        for a in range(axes(shape)):
            ctx.check(abs(np.mean(rel[:, a] > 0) - 0.5) < 0.05 and abs(np.mean(rel[:, a])) < 0.06, "samples:uniform", f"{what}: axis {a} is not covered evenly")
            if shape[:4] in ("cubo", "rect"):
                ctx.check(abs(np.mean(np.abs(rel[:, a]) < 0.5) - 0.5) < 0.05 and np.max(np.abs(rel[:, a])) > 0.9, "samples:uniform", f"{what}: axis {a} is not covered evenly")
        # the coordinates are independent of each other: every quadrant and octant, and for boxes every cell of 4 x 4, has its share
        half = rel[:, :axes(shape)] > 0
        for a, b in itertools.combinations(range(axes(shape)), 2):
            for sa, sb in itertools.product((False, True), repeat=2):
                ctx.check(abs(np.mean((half[:, a] == sa) & (half[:, b] == sb)) - 0.25) < 0.05, "samples:joint", f"{what}: axes {a} and {b} depend on each other")
            if shape[:4] in ("cubo", "rect"):
                cell = np.histogram2d(rel[:, a], rel[:, b], bins=4, range=[[-1, 1], [-1, 1]])[0] / n
                ctx.check(np.max(np.abs(cell - 1 / 16)) < 0.025, "samples:joint", f"{what}: axes {a} and {b} depend on each other: {cell}")
        if axes(shape) == 3:
            octant = np.bincount(half @ [1, 2, 4], minlength=8) / n
            ctx.check(np.max(np.abs(octant - 1 / 8)) < 0.04, "samples:joint", f"{what}: octants {octant}")
        if curved:
            rr = np.linalg.norm(rel[:, :3 if shape == "ball" else 2], axis=1)
            ctx.check(abs(np.mean(rr < 0.5) - (0.125 if shape == "ball" else 0.25)) < 0.05 and np.max(rr) > 0.9, "samples:uniform", f"{what}: radius is not covered evenly")
            if shape == "cyl":
                ctx.check(abs(np.mean(np.abs(rel[:, 2]) < 0.5) - 0.5) < 0.05 and np.max(np.abs(rel[:, 2])) > 0.9, "samples:uniform", f"{what}: height is not covered evenly")
    for m in (0, 1, 2, 7):
        a = make(shape, size, centre, 0.25, np.random.default_rng(3)).sample_points(m)
        b = make(shape, size, centre, 0.25, np.random.default_rng(3)).sample_points(m)
        c = make(shape, size, centre, 0.25).sample_points(m)
        ctx.check(a.shape == b.shape == c.shape == (m, d) and np.array_equal(a, b), "samples:count", f"{what}: {m} points")
        ctx.check(np.all(depth(shape, size, centre, c) >= -1e-9), "samples:outside", what)
    fig, ax = plt.subplots()
    r.plot(ax, "name")
    plt.close(fig)
    ctx.state("samples", what, np.round(pts, 6))
    ctx.trace()

PARTS = dict(volume=[("cuboid", [1, 1, 1], [0, 0, 0]), ("ball", 0.75, [3, 0, 0]), ("cyl", [0.5, 2], [0, 3, 0.5]), ("cuboid", [2, 1, 0.5], [0, 0, 2]), ("ball", 0.5, [-2, -2, -2]), ("cyl", [1, 0.5], [3, 3, 3])],
             flat3=[("rect3", [1, 2], [0, 0, 1]), ("disc3", 0.75, [3, 0, 1]), ("rect3", [1, 1], [0, 0, 2]), ("disc3", 0.5, [0, 0, -1]), ("rect3", [2, 0.5], [3, 3, 1]), ("disc3", 1, [-3, 0, 1])],
             flat2=[("rect2", [1, 2], [0, 0]), ("disc2", 0.75, [3, 0]), ("rect2", [1, 1], [0, 3]), ("disc2", 0.5, [-2, 0]), ("rect2", [2, 0.5], [3, 3]), ("disc2", 1, [-3, 4])])

def run_combined(ctx, case):
    parts = [PARTS[case["group"]][i] for i in case["which"]]
    n = 4000
    subs = [make(*p, 0.25, np.random.default_rng(i)) for i, p in enumerate(parts)]
    r = reg.CombinedRegion(subs, rng=np.random.default_rng(1))
    vol = np.array([volume(p[0], p[1]) for p in parts])
    what = str(parts)
    ctx.close(r.volume, np.sum(vol), "combined:volume", what)
    ctx.close(r.equally_spaced_points(), np.concatenate([s.equally_spaced_points() for s in subs]), "combined:grid", what)
    d = dim(parts[0][0])
    near = np.concatenate([np.array(p[2], float) + s * np.eye(d)[a] * q for p in parts for a in range(d) for s in (-1, 1) for q in (0, 0.125, 0.3, 0.45, 0.6, 0.9, 1.2)]).reshape(-1, d)
    lattice = np.concatenate([near, np.array(list(itertools.product(*[[-2, -0.4, 0.1, 0.6, 2.1, 3.2]] * d)))])
    dd = np.max([depth(*p, lattice) for p in parts], axis=0)
    got = np.asarray(r.is_in_region(lattice.copy()))
    ctx.step(len(lattice))
    if ctx.check(got.shape == (len(lattice),), "combined:shape", f"{what}: {got.shape} for {len(lattice)} points"):
        sure = np.abs(dd) > 1e-9
        bad = np.nonzero(sure & (got != (dd > 0)))[0]
        ctx.check(not len(bad), "combined:inside", f"{what}: {lattice[bad[0]].tolist() if len(bad) else ''}")
    # all values of the random choice between the parts
    r.rng = Script(n)
    pts = r.sample_points(n)
    ctx.step(n)
    if ctx.check(pts.shape == (n, d), "combined:samples", f"{what}: {pts.shape}"):
        member = np.array([depth(*p, pts) >= -1e-9 for p in parts])
        ctx.check(np.all(np.sum(member, axis=0) == 1), "combined:samples:outside", what)
        ctx.check(np.max(np.abs(np.mean(member, axis=1) - vol / np.sum(vol))) < 0.05, "combined:proportion", f"{what}: {np.mean(member, axis=1)}, volumes {vol / np.sum(vol)}")
    a, b = [reg.CombinedRegion([make(*p, 0.25, np.random.default_rng(i)) for i, p in enumerate(parts)], rng=np.random.default_rng(7)).sample_points(5) for _ in range(2)]
    ctx.check(a.shape == (5, d) and np.array_equal(a, b), "combined:seed", what)
    # few points: parts that get none, one value of the random choice at a time and all pairs of values
    shared = np.random.default_rng(11)
    class Fixed(Script):
        def __init__(self, vals):
            super().__init__(4)
            self.vals, self.real = vals, shared
        def random(self, size=None, *a, **k):
            shape = () if size is None else tuple(np.atleast_1d(size))
            return np.resize(np.array(self.vals), shape) if shape else float(self.vals[0])
    marks = np.concatenate([[0], np.cumsum(vol) / np.sum(vol)])
    mid = [(marks[i] + marks[i + 1]) / 2 for i in range(len(parts))]
    counts = {}
    for k in (1, 2, 3):
        for vals in itertools.product(mid + [0.0, 0.999], repeat=k):
            r.rng = Fixed(vals)
            pts = r.sample_points(k)
            ctx.step(k)
            if not ctx.check(pts.shape == (k, d), "combined:samples", f"{what}: {pts.shape} for {k} points"):
                continue
            member = np.array([depth(*p, pts) >= -1e-9 for p in parts])
            ctx.check(np.all(np.sum(member, axis=0) == 1), "combined:samples:outside", what)
            counts[vals] = tuple(np.sum(member, axis=1))
    # with one point, the values spread evenly over [0, 1) must reach every part in proportion to its volume
    n1 = 400
    hit = np.zeros(len(parts))
    for u in (np.arange(n1) + 0.5) / n1:
        r.rng = Fixed([u])
        hit += [depth(*p, r.sample_points(1))[0] >= -1e-9 for p in parts]
    ctx.step(n1)
    ctx.check(np.max(np.abs(hit / n1 - vol / np.sum(vol))) < 0.08, "combined:proportion:one", f"{what}: one point at a time {hit / n1}, volumes {vol / np.sum(vol)}")
    ctx.check(reg.CombinedRegion(subs).sample_points(1).shape == (1, d), "combined:one", what)
    fig, ax = plt.subplots()
    r.plot(ax, "name")
    plt.close(fig)
    ctx.state("combined", what, got)
    ctx.trace()

TOUCH = dict(cuboid=("cuboid", [1, 1, 1], 1.0), rect3=("rect3", [1, 1], 1.0), rect2=("rect2", [1, 1], 1.0), ball=("ball", 0.5, 1.0), disc2=("disc2", 0.5, 1.0), disc3=("disc3", 0.5, 1.0), cyl=("cyl", [0.5, 1], 1.0))
def run_touch(ctx, case):
    """parts in a row or block that share faces, edges or single points: the union contains the shared points"""
    shape, size, step = TOUCH[case["shape"]]
    d, ax = dim(shape), axes(shape)
    for offsets in case["offsets"]:
        parts = [(shape, size, [o * step for o in off] + [0.0] * (3 - len(off))) for off in offsets]
        for order in itertools.permutations(range(len(parts))):
            ps = [parts[i] for i in order]
            r = reg.CombinedRegion([make(*p, 0.25, np.random.default_rng(i)) for i, p in enumerate(ps)], rng=np.random.default_rng(1))
            pts = np.unique(np.concatenate([[np.array(p[2][:d]) + s * np.eye(d)[a] * q] for p in ps for a in range(ax) for s in (-1, 1) for q in (0, 0.25, 0.5, 0.75)]
                                           + ([np.array(list(itertools.product(*[np.arange(-0.75, 1.8, 0.25)] * ax)))] if d == ax else [])), axis=0)
            dd = np.max([depth(*p, pts) for p in ps], axis=0)
            straight = shape[:4] in ("cubo", "rect")
            # on curved boundaries only the points on an axis are exact
            exact = np.array([straight or any(np.sum(np.abs(x - np.array(p[2][:d])) > 1e-12) <= 1 for p in ps if abs(depth(*p, x[None])[0]) < 1e-9) for x in pts])
            decided = (np.abs(dd) > 1e-9) | exact
            got = np.asarray(r.is_in_region(pts.copy()))
            bad = np.nonzero(decided & (got.astype(bool) != (dd >= -1e-12)))[0]
            ctx.step(len(pts))
            ctx.check(got.shape == (len(pts),) and not len(bad), "touching", f"{ps}: {pts[bad[0]].tolist() if len(bad) else got.shape}")
            ctx.close(r.volume, sum(volume(p[0], p[1]) for p in ps), "combined:volume", str(ps))
            ctx.state(shape, offsets, order)
    ctx.trace()

def run_overlap(ctx, case):
    """parts moved so that they overlap clearly, or are apart, in every order and among others"""
    A, B = PARTS[case["group"]][case["a"]], PARTS[case["group"]][case["b"]]
    d = dim(A[0])
    far = (A[0], A[1], [30.0] * d)
    for shift, overlap in ((0.25, True), (6.5, False)):
        c = [x + (shift if k == 0 else 0) for k, x in enumerate(A[2])]
        B2 = (B[0], B[1], c)
        for parts in ([A, B2], [B2, A], [far, A, B2], [A, far, B2], [B2, A, far]):
            try:
                reg.CombinedRegion([make(*p, 0.125 if d == 2 else 0.25, np.random.default_rng(2)) for p in parts])
                rejected = False
            except (AssertionError, ValueError, NotImplementedError):
                rejected = True
            ctx.step()
            ctx.check(rejected == overlap, "overlap", f"{parts} {'rejected' if rejected else 'accepted'}")
    if d == 3:
        # every flat part crosses every solid part
        solid = ("cuboid", [3, 3, 3], list(A[2]))
        for parts in ([A, solid], [solid, A]):
            try:
                reg.CombinedRegion([make(*p, 0.25) for p in parts])
                ctx.fail("overlap", f"{parts} accepted")
            except (AssertionError, ValueError, NotImplementedError):
                pass
            ctx.step()
    ctx.state("overlap", case["group"], case["a"], case["b"])
    ctx.trace()
