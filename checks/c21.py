"""C21: point generators return the promised layout."""
import itertools
import numpy as np
import aspsim.room.generatepoints as gp
PROP = "C21"
TECH = "exhaustive enumeration on the real generators: all point counts up to a bound with side lengths, offsets, outward shifts, angles, circle and rectangle counts; compared with arc-length positions along the perimeter and closed-form grids"
BOUND = dict(quick="1-40 points x 7 rectangles x 9 offsets x 6 outward shifts x 3 heights; circles 1-30 points x 8 angles x 5 radii; 1-6 circles or stacked rectangles; all small grids; 2 x 17^3 coordinates",
             thorough="1-120 points, 1-10 circles or rectangles")
CHUNK = 2
DIMS = [(1, 1), (2, 1), (1, 3), (2, 0.1), (0.3, 0.7), (1.25, 0.5), (10, 0.01)]
OFFS = [0, 0.25, 0.5, 0.75, 1, 1.0, 1 / 3, 0.1, 0.999]
EXTRA = [0, 0.5, (0.5, 0), (0, 0.25), [0.125, 1.0], np.array([0.3, 0.2])]
ANG = [0, 0.5, np.pi / 2, -1, 7, np.pi, -np.pi, 2 * np.pi]

def cases(tier, seed):
    n = 120 if tier == "thorough" else 40
    for d in range(len(DIMS)):
        for lo in range(0, n, 10):
            yield dict(kind="rect", d=d, lo=lo + (lo > 0), hi=lo + 10)
            yield dict(kind="old", d=d, lo=lo + 1, hi=lo + 10)
    for lo in range(1, n, 10):
        yield dict(kind="circle", lo=lo, hi=min(lo + 9, n))
        yield dict(kind="sunflower", lo=lo, hi=min(lo + 9, n))
    k = 10 if tier == "thorough" else 6
    for c in range(1, k + 1):
        yield dict(kind="circles", c=c, n=n)
        for d in range(len(DIMS)):
            yield dict(kind="stacked", c=c, d=d, n=n)
    for side in (1, 0.4, 2.5, 3):
        yield dict(kind="four", side=side, n=n)
    yield dict(kind="grids", n=12 if tier == "thorough" else 8)
    yield dict(kind="disc")
    for part in range(8):
        yield dict(kind="coord", part=part)

def run_case(ctx, case):
    globals()["run_" + case["kind"]](ctx, case)

def perimeter(pos, dims, ccw=False):
    """point, outward normal (zero-able pair at corners) at the arc-length position from the first corner"""
    a, b = dims
    C = 2 * (a + b)
    pos = pos % C
    x, y = a / 2, b / 2
    if ccw:
        legs = [((-x, -y), (1, 0), a, (0, -1)), ((x, -y), (0, 1), b, (1, 0)), ((x, y), (-1, 0), a, (0, 1)), ((-x, y), (0, -1), b, (-1, 0))]
    else:
        legs = [((-x, y), (1, 0), a, (0, 1)), ((x, y), (0, -1), b, (1, 0)), ((x, -y), (-1, 0), a, (0, -1)), ((-x, -y), (0, 1), b, (-1, 0))]
    out = []
    for start, direction, length, normal in legs:
        for q in (pos, pos + C, pos - C):
            if -1e-9 <= q <= length + 1e-9:
                out.append((np.array(start) + q * np.array(direction), np.array(normal)))
        pos -= length
    return out

def along(ctx, pts, dims, offset, extra, key, what, ccw=False, shifted=lambda k: k % 2 == 1):
    """points are at offset, offset + d, ... along the perimeter, in order; shifted ones moved outwards by half of extra"""
    n = len(pts)
    C = 2 * (dims[0] + dims[1])
    for k in range(n):
        options = [p + (nrm * np.array(extra) / 2 if shifted(k) else 0) for p, nrm in perimeter((k + offset) * C / n, dims, ccw)]
        if not ctx.check(any(np.allclose(pts[k], o, rtol=0, atol=1e-9) for o in options), key, f"{what}: point {k} of {n} is at {np.round(pts[k], 4).tolist()}, expected {np.round(options[0], 4).tolist()}"):
            return

def run_rect(ctx, case):
    dims = DIMS[case["d"]]
    for n in range(case["lo"], case["hi"] + 1):
        for oi, offset in enumerate(OFFS):
            for ei, extra in enumerate(EXTRA):
                z = [None, 0, -1.5][(n + oi + ei) % 3]
                form = [tuple, list, np.array][(n + ei) % 3](dims)
                with np.errstate(all="ignore"):
                    pts = gp.equidistant_rectangle(n, form, extra, offset, z)
                ctx.step()
                what = f"{n} points on {dims}, offset {offset}, outwards {extra}"
                if not ctx.check(pts.shape == (n, 2 if z is None else 3), "rect:count", f"{what}: {pts.shape}"):
                    continue
                ctx.check(z is None or np.all(pts[:, 2] == z), "rect:z", what)
                ex = np.broadcast_to(np.array(extra, float), 2)
                if offset < 1:
                    along(ctx, pts[:, :2], dims, offset, ex, "rect", what)
                else:      # the order of the points is open: the last one has reached the first corner again
                    C = 2 * sum(dims)
                    left = [p for p in pts[:, :2]]
                    for k in range(n):
                        opts = [p + (nrm * ex / 2 if k % 2 else 0) for p, nrm in perimeter((k + 1) * C / n, dims)]
                        hit = [i for i, p in enumerate(left) if any(np.allclose(p, o, rtol=0, atol=1e-9) for o in opts)]
                        if not ctx.check(hit, "rect", f"{what}: no point at {np.round(opts[0], 4).tolist()}"):
                            break
                        left.pop(hit[0])
                ctx.state("rect", n, dims, str(extra), np.round(pts, 6))
    pts = gp.equidistant_rectangle(4, dims)
    along(ctx, pts, dims, 0.5, (0, 0), "rect:default", f"4 points on {dims}")
    ctx.trace()

def run_old(ctx, case):
    dims = DIMS[case["d"]]
    for n in range(case["lo"], case["hi"] + 1):
        for offset in OFFS:
            if offset >= 1:
                continue
            what = f"{n} points on {dims}, offset {offset}"
            for z in (None, 2):
                pts = gp.equidistant_rectangle_old(n, dims, offset, z)
                if not ctx.check(pts.shape == (n, 2 if z is None else 3) and (z is None or np.all(pts[:, 2] == z)), "old:count", f"{what}: {pts.shape}"):
                    continue
                if n >= 4:
                    along(ctx, pts[:, :2], dims, offset, (0, 0), "old", what, ccw=True)
                else:
                    ctx.check(np.all(on_perimeter(pts[:, :2], dims)) and len(set(map(tuple, np.round(pts, 6)))) == n, "old", what)
            ctx.step(2)
        np.random.seed(n)
        for again in range(3):
            pts = gp.equidistant_rectangle_for_fewer(n, dims)
            ctx.check(pts.shape == (n, 2) and np.all(on_perimeter(pts, dims)), "fewer", f"{n} points on {dims}: {pts.tolist()}")
            if n >= 4 and pts.shape == (n, 2):
                # the first point is anywhere within the first spacing
                C = 2 * sum(dims)
                legs = [o for o in np.linspace(0, 1, 8, endpoint=False)]
                arc = arclength(pts, dims)
                gap = np.diff(np.concatenate([np.sort(arc), [np.min(arc) + C]]))
                ctx.check(np.allclose(gap, C / n, atol=1e-9), "fewer", f"{n} points on {dims}: distances {np.round(gap, 4).tolist()}")
            ctx.step()
    for z in (None, 1):
        ctx.check(gp.equidistant_rectangle_old(0, dims, z=z).shape == (0, 2 if z is None else 3), "old:count", "no points")
    ctx.state("old", dims, case["lo"])
    ctx.trace()

def on_perimeter(p, dims):
    q = np.abs(p) - np.array(dims) / 2
    return (np.abs(np.max(q, axis=1)) < 1e-9)

def arclength(p, dims):
    a, b = dims
    x, y = a / 2, b / 2
    out = []
    for u, v in p:
        out.append(u + x if abs(v + y) < 1e-9 else a + v + y if abs(u - x) < 1e-9 else a + b + x - u if abs(v - y) < 1e-9 else 2 * a + b + y - v)
    return np.array(out) % (2 * (a + b) - 1e-12)

def ring(n, r, start):
    t = start + 2 * np.pi * np.arange(n) / n
    return np.stack([r * np.cos(t), r * np.sin(t)], axis=1)

def run_circle(ctx, case):
    for n in range(case["lo"], case["hi"] + 1):
        for ai, a in enumerate(ANG):
            for ri, r in enumerate((1, 0.5, 2.25, np.float64(1.5), 0)):
                z = [None, 0, 1.5, -2][(n + ai + ri) % 4]
                pts = gp.equiangular_circle(n, r, a, z)
                ctx.step()
                what = f"{n} points, radius {r}, from {a}"
                if ctx.check(pts.shape == (n, 2 if z is None else 3) and (z is None or np.all(pts[:, 2] == z)), "circle:shape", f"{what}: {pts.shape}"):
                    ctx.close(pts[:, :2], ring(n, r, a), "circle", what)
            for lo, hi in ((0.5, 1), (1, 1), (0, 3)):
                pts = gp.equiangular_circle(n, (lo, hi), a, 0.5, np.random.default_rng(n))
                again = gp.equiangular_circle(n, (lo, hi), a, 0.5, np.random.default_rng(n))
                rr = np.linalg.norm(pts[:, :2], axis=1)
                ctx.check(pts.shape == (n, 3) and np.all(rr >= lo - 1e-9) and np.all(rr <= hi + 1e-9) and np.array_equal(pts, again), "circle:range", f"{n} points between {lo} and {hi}")
                ctx.close(pts[:, :2], rr[:, None] * ring(n, 1, a), "circle:angle", f"{n} points between {lo} and {hi} from {a}")
                if n >= 20 and hi > lo:
                    ctx.check(np.max(rr) - np.min(rr) > 0.2 * (hi - lo), "circle:spread", f"{n} points between {lo} and {hi}")
                ctx.step()
        ctx.close(gp.equiangular_circle(n, 2), ring(n, 2, 0), "circle:default", f"{n} points")
        ctx.state("circle", n)
    ctx.trace()

def run_circles(ctx, case):
    c = case["c"]
    np.random.seed(c)
    for n in range(c, case["n"] + 1):
        counts = [n // c + (i < n % c) for i in range(c)]
        section = 2 * np.pi / counts[0]
        for zd in (None, 0.5, 1, 0):
            for mode in ("default", "distribute", "same", "almostSame", "random"):
                pts = gp.concentrical_circles(n, c, 1.5, zd) if mode == "default" else gp.concentrical_circles(n, c, 1.5, zd, mode)
                ctx.step()
                what = f"{n} points on {c} circles, distance {zd}, {mode}"
                if not ctx.check(pts.shape == (n, 2 if zd is None else 3), "circles:count", f"{what}: {pts.shape}"):
                    continue
                at = 0
                for i, m in enumerate(counts):
                    part = pts[at:at + m]
                    at += m
                    if zd is not None:
                        ctx.close(part[:, 2], np.full(m, (i - (c - 1) / 2) * zd), "circles:z", what)
                    start = np.arctan2(part[0, 1], part[0, 0])
                    ctx.close(part[:, :2], ring(m, 1.5, start), "circles", f"{what}, circle {i}")
                    want = dict(same=0, distribute=i * section / c, default=i * section / c).get(mode)
                    if want is not None:
                        ctx.check(abs((start - want + np.pi) % (2 * np.pi) - np.pi) < 1e-9, "circles:start", f"{what}, circle {i} starts at {start}")
                    if mode == "almostSame":
                        ctx.check(-1e-9 <= (start + 1e-12) % (2 * np.pi) <= section / 10 + 1e-9, "circles:start", f"{what}, circle {i} starts at {start}")
                ctx.state("circles", n, c, zd, mode)
    ctx.trace()

def run_sunflower(ctx, case):
    for n in range(case["lo"], case["hi"] + 1):
        for r in (1, 0.3, 2.5):
            base = gp.sunflower_pattern(n, r)
            ctx.check(base.shape == (n, 2), "sunflower:count", f"{n}: {base.shape}")
            rr = np.linalg.norm(base, axis=1)
            k = np.arange(1, n + 1)
            ctx.close(np.sort(rr) ** 2, r ** 2 * (k - 0.5) / (n - 0.5), "sunflower:radius", f"{n} points: rings of equal area")
            golden = np.pi * (3 - np.sqrt(5))
            ang = np.arctan2(base[:, 1], base[:, 0])
            step = np.diff(ang) % (2 * np.pi)
            ctx.check(np.allclose(np.minimum(step, 2 * np.pi - step), golden, atol=1e-7), "sunflower:angle", f"{n} points")
            for a in ANG:
                c, s = np.cos(a), np.sin(a)
                ctx.close(gp.sunflower_pattern(n, r, a), base @ np.array([[c, s], [-s, c]]), "sunflower:offset", f"{n} points turned by {a}", tol=1e-7)
                ctx.step()
        # cylinders consist of four such planes
        np.random.seed(n)
        turns = []
        for h in (1, 0.4, 3):
            pts = gp.uniform_cylinder(4 * n, 1.5, h)
            ctx.step()
            if not ctx.check(pts.shape == (4 * n, 3), "cylinder:count", f"{4 * n}: {pts.shape}"):
                continue
            base = gp.sunflower_pattern(n, 1.5)
            for q in range(4):
                part = pts[q * n:(q + 1) * n]
                ctx.close(part[:, 2], np.full(n, -h / 2 + (q + 1) * h / 5), "cylinder:z", f"{4 * n} points, plane {q}")
                turn = np.arctan2(part[0, 1], part[0, 0]) - np.arctan2(base[0, 1], base[0, 0])
                turns.append(turn % (2 * np.pi))
                c, s = np.cos(turn), np.sin(turn)
                ctx.close(part[:, :2], base @ np.array([[c, s], [-s, c]]), "cylinder", f"{4 * n} points, plane {q}", tol=1e-7)
        ctx.check(len(set(np.round(turns, 4))) > 6, "cylinder:turn", f"{4 * n} points: the planes are all turned alike")
        ctx.state("sunflower", n)
    ctx.trace()

def run_stacked(ctx, case):
    c, dims = case["c"], DIMS[case["d"]]
    for n in range(c, case["n"] + 1):
        for zd in (1, 0.25):
            pts = gp.stacked_equidistant_rectangles(n, c, dims, zd)
            ctx.step()
            what = f"{n} points on {c} rectangles {dims}"
            if not ctx.check(pts.shape == (n, 3), "stacked:count", f"{what}: {pts.shape}"):
                continue
            at = 0
            for i in range(c):
                m = n // c + (i < n % c)
                part = pts[at:at + m]
                at += m
                ctx.close(part[:, 2], np.full(m, (i - (c - 1) / 2) * zd), "stacked:z", what)
                along(ctx, part[:, :2], dims, (2 * i + 1) / (2 * c), (0, 0), "stacked", f"{what}, rectangle {i}")
            ctx.state("stacked", n, c, dims)
    ctx.trace()

def run_four(ctx, case):
    s = case["side"]
    for n in range(1, case["n"] + 1):
        for out in (0.25, 0.5, 0):
            pts = gp.four_equidistant_rectangles(n, s, out, -1, 0.5)
            ctx.step()
            what = f"{n} points, side {s}, outwards {out}"
            if ctx.check(pts.shape == (n, 3), "four:count", f"{what}: {pts.shape}"):
                along(ctx, pts[:, :2], (s, s), 0.5, (2 * out, 2 * out), "four", what)
                ctx.close(pts[:, 2], np.array([0.5 if k % 4 >= 2 else -1 for k in range(n)]), "four:z", what)
            ctx.state("four", n, s, out)
    ctx.trace()

def rows(a):
    return sorted(map(tuple, (np.round(a, 8) + 0.0).tolist()))

def run_grids(ctx, case):
    for k in range(1, case["n"] + 1):
        for lim in (None, (-1, 1), (0.5, 2), (-1, -2, 3, 0), (0, 0, 1, 5)):
            for z in (None, 0, 1.25):
                pts = gp.uniform_filled_rectangle(k * k, z_axis=z) if lim is None else gp.uniform_filled_rectangle(k * k, lim, z)
                ctx.step()
                l = lim or (-2.4, 2.4)
                x = np.linspace(l[0], l[1] if len(l) == 2 else l[2], k)
                y = np.linspace(l[0] if len(l) == 2 else l[1], l[1] if len(l) == 2 else l[3], k)
                want = [(a, b) + (() if z is None else (z,)) for a in x for b in y]
                ctx.check(pts.shape == (k * k, 2 if z is None else 3) and rows(pts) == rows(want), "filled", f"{k * k} points in {lim}, height {z}")
        for zn in range(1, 6):
            for dims in ((1, 1, 1), (2, 1, 0.5), (0.3, 3, 1)):
                pts = gp.uniform_filled_cuboid(k * k * zn, dims, zn)
                ctx.step()
                mid = lambda d, m: d * ((np.arange(m) + 0.5) / m - 0.5)
                want = list(itertools.product(mid(dims[0], k), mid(dims[1], k), mid(dims[2], zn)))
                ctx.check(pts.shape == (k * k * zn, 3) and rows(pts) == rows(want), "cuboid", f"{k * k * zn} points in {dims}")
        ctx.check(gp.uniform_filled_cuboid(4 * k * k, (1, 1, 1)).shape == (4 * k * k, 3), "cuboid:default", f"{k}")
        for bad in range(k * k + 1, (k + 1) ** 2):
            try:
                gp.uniform_filled_rectangle(bad)
                ctx.fail("filled:rejected", f"{bad} points cannot fill a square grid")
            except (AssertionError, ValueError):
                pass
        ctx.state("grids", k)
    ctx.trace()

def run_disc(ctx, case):
    for r, d in itertools.product((1, 0.5, 2.2, 1.5), (0.5, 0.25, 0.3, 0.1, 0.07)):
        if 2 * r / d < 3:
            continue
        for z in (None, 0, -1.5):
            pts = gp.uniform_disc(d, r, z)
            ctx.step()
            what = f"disc of radius {r}, distance {d}"
            if not ctx.check(pts.ndim == 2 and pts.shape[1] == (2 if z is None else 3) and len(pts) and (z is None or np.all(pts[:, 2] == z)), "disc:shape", f"{what}: {pts.shape}"):
                continue
            p = pts[:, :2]
            ctx.check(np.all(np.linalg.norm(p, axis=1) <= r + 1e-9), "disc:outside", what)
            xs = np.unique(np.round(p[:, 0], 8))
            s = np.min(np.diff(xs))
            ctx.check(d - 1e-9 <= s <= 2 * r / (int(2 * r / d) - 1) + 1e-6, "disc:distance", f"{what}: points {s} apart")
            # every grid point inside the disc is there, symmetric about the centre
            first = xs[0] if abs(xs[0] + r) < 1e-6 else xs[0] - s * np.floor((xs[0] + r) / s + 1e-6)
            axis = np.arange(first, r + 1e-6, s)
            want = np.array(list(itertools.product(axis, axis)))
            dist = np.linalg.norm(want, axis=1)
            lo, hi = int(np.sum(dist < r - 1e-5)), int(np.sum(dist < r + 1e-5))
            ctx.check(lo <= len(p) <= hi, "disc:filled", f"{what}: {len(p)} points, {lo} to {hi} expected")
            inner = p[np.linalg.norm(p, axis=1) < r - 1e-5]
            ctx.check(sorted(map(tuple, np.round(inner, 6) + 0.0)) == sorted(map(tuple, np.round(-inner, 6) + 0.0)), "disc:symmetry", what)
            ctx.check(len(set(map(tuple, np.round(p, 6) + 0.0))) == len(p), "disc:repeated", what)
        ctx.state("disc", r, d, len(pts))
    ctx.trace()

def run_coord(ctx, case):
    v = np.array([-3, -2, -1.5, -1, -0.5, -0.25, -0.1, -1e-3, 0, 1e-3, 0.1, 0.25, 0.5, 1, 1.5, 2, 3])
    xyz = np.array(list(itertools.product(v, v, v)))[case["part"]::8]
    r, ang = gp.cart2spherical(xyz.copy())
    ctx.step(len(xyz))
    ctx.check(np.size(r) == len(xyz) and ang.shape == (len(xyz), 2), "spherical:shape", f"{np.shape(r)} {ang.shape}")
    r1 = np.reshape(r, -1)
    ctx.close(r1, np.sqrt(np.sum(xyz ** 2, axis=1)), "spherical:radius", "")
    nz = r1 > 0
    ctx.close(r1[nz] * np.cos(ang[nz, 1]), xyz[nz, 2], "spherical:zenith", "")
    ctx.check(np.all((ang[:, 1] >= 0) & (ang[:, 1] <= np.pi) & (np.abs(ang[:, 0]) <= np.pi + 1e-12)), "spherical:range", "")
    ctx.close(r1 * np.sin(ang[:, 1]) * np.cos(ang[:, 0]), xyz[:, 0], "spherical:angle", "")
    ctx.close(r1 * np.sin(ang[:, 1]) * np.sin(ang[:, 0]), xyz[:, 1], "spherical:angle", "")
    for rr in (r, r1[:, None], r1):
        ctx.close(gp.spherical2cart(rr, ang), xyz, "spherical:inverse", "")
    for i in range(0, len(xyz), 37):
        ri, ai = gp.cart2spherical(xyz[i:i + 1])
        ctx.close(gp.spherical2cart(np.reshape(ri, (1, 1)), ai), xyz[i:i + 1], "spherical:one", str(xyz[i]))
    th, ph = np.meshgrid(np.linspace(-np.pi + 0.01, np.pi, 23), np.linspace(0.01, np.pi - 0.01, 11))
    ang0 = np.stack([th.reshape(-1), ph.reshape(-1)], axis=1)
    rad = np.linspace(0.1, 4, len(ang0)) + case["part"]
    r2, a2 = gp.cart2spherical(gp.spherical2cart(rad, ang0))
    ctx.close(np.reshape(r2, -1), rad, "spherical:back", "")
    ctx.close(a2, ang0, "spherical:back", "")
    x, y = xyz[:, 0], xyz[:, 1]
    r, a = gp.cart2pol(x.copy(), y.copy())
    ctx.close(r, np.sqrt(x ** 2 + y ** 2), "polar:radius", "")
    x2, y2 = gp.pol2cart(r, a)
    ctx.close(x2, x, "polar:inverse", "x")
    ctx.close(y2, y, "polar:inverse", "y")
    px, py = gp.pol2cart(rad, ang0[:, 0])
    ctx.close(px, rad * np.cos(ang0[:, 0]), "polar:x", "")
    r3, a3 = gp.cart2pol(px, py)
    ctx.close(r3, rad, "polar:back", "")
    ctx.close(a3, ang0[:, 0], "polar:back", "")
    ctx.state("coord", case["part"])
    ctx.trace()
