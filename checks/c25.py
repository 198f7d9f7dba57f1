"""C25: sound field images put every value at its position."""
import itertools
import numpy as np
import matplotlib.pyplot as plt
import aspsim.array as ar
import aspsim.diagnostics.soundfieldplot as sfp
PROP = "C25"
TECH = "exhaustive enumeration on the real sorting code: all input orders (permutations) of all small grids, and all transpositions, rotations and reversals of larger ones, with several value types; every pixel compared with the value given for that position"
BOUND = dict(quick="all permutations of all grids with up to 6 points and of 1x7; all transpositions and rotations of grids up to 6x6; 4 spacings, 2 heights, 5 value types; comparison figures of 1-3 algorithms x 1-3 values",
             thorough="all permutations of all grids with up to 8 points; grids up to 12x12")
CHUNK = 4
AX = [lambda n: np.arange(n) * 0.5, lambda n: -1 + np.array([0, 0.3, 0.4, 1.1, 1.15, 2, 3, 3.01, 4, 5, 6, 7.5])[:n], lambda n: np.linspace(-1, 1, n) if n > 1 else np.array([0.7]), lambda n: 0.1 * np.arange(n) - 0.3]

def cases(tier, seed):
    top = 8 if tier == "thorough" else 6
    for r in range(1, 9):
        for c in range(1, 9):
            if r * c <= top or (r, c) == (1, 7) or (r, c) == (7, 1):
                for ax in range(4):
                    firsts = range(r * c) if r * c >= 7 else [None]
                    for f in firsts:
                        yield dict(kind="perm", r=r, c=c, ax=ax, first=f)
    big = 12 if tier == "thorough" else 6
    for r in range(1, big + 1):
        for c in range(1, big + 1):
            if r * c > top:
                yield dict(kind="swap", r=r, c=c, ax=(r + c) % 4)
    for r, c in itertools.product(range(2, 5), repeat=2):
        yield dict(kind="plot", r=r, c=c)
    for r, c in ((2, 2), (2, 3), (3, 2), (4, 3)):
        for algos, axes in itertools.product((1, 2, 3), repeat=2):
            yield dict(kind="compare", r=r, c=c, algos=algos, axes=axes)

def grid(r, c, ax, z, seed=0):
    x, y = AX[ax](c), AX[(ax + 1) % 4](r) + 0.25
    pos = np.array([[u, v] + ([] if z is None else [z]) for v in y for u in x])
    return x, y, pos

def values(n, kind):
    v = np.arange(1, n + 1)
    return [v[:, None].astype(float), np.stack([v, -2.0 * v], axis=1), (v + 1j * v ** 2)[:, None], v[:, None], np.stack([v, v * 0.5, 1j * v], axis=1)][kind]

def look(ctx, r, c, ax, order, kind, z):
    x, y, pos = grid(r, c, ax, z)
    val = values(r * c, kind)
    p, s = pos[list(order)], val[list(order)]
    p0, s0 = p.copy(), s.copy()
    ps, ss = sfp.sort_for_imshow(p, s)
    ctx.step()
    what = f"{r}x{c} grid {ax} in the order {list(order)}, values {kind}"
    if not ctx.check(ps.shape == (r, c, pos.shape[1]) and ss.shape == (r, c, val.shape[1]), "shape", f"{what}: {ps.shape} {ss.shape}"):
        return
    ctx.check(np.array_equal(p, p0) and np.array_equal(s, s0), "input", f"{what}: the input was changed")
    ok = np.array_equal(ps, pos.reshape(r, c, -1))
    ctx.check(ok, "position", f"{what}: positions are not sorted by rows")
    ctx.check(np.array_equal(ss, val.reshape(r, c, -1)[::-1]), "value", f"{what}: a value is not at its position")
    ctx.check(ss.dtype == val.dtype, "type", f"{what}: {ss.dtype}")

def run_case(ctx, case):
    globals()["run_" + case["kind"]](ctx, case)

def run_perm(ctx, case):
    r, c, n = case["r"], case["c"], case["r"] * case["c"]
    it = itertools.permutations(range(n)) if case["first"] is None else ((case["first"],) + q for q in itertools.permutations([i for i in range(n) if i != case["first"]]))
    for k, order in enumerate(it):
        if n >= 7 and ctx.tier == "quick" and k % 4 != case["ax"]:
            continue
        look(ctx, r, c, case["ax"], order, (k + case["ax"]) % 5, [None, 0, 1.5][k % 3])
        ctx.state(r, c, case["ax"], order)
    x, y, pos = grid(r, c, case["ax"], None)
    ctx.check(tuple(sfp.get_num_pixels(pos)) == (r, c), "pixels", f"{r}x{c}: {sfp.get_num_pixels(pos)}")
    # coordinates that only differ by rounding belong to the same row or column
    jit = pos + 1e-8 * np.where(np.arange(pos.size).reshape(pos.shape) % 3 == 0, 1, -1)
    ctx.check(tuple(sfp.get_num_pixels(jit)) == (r, c), "pixels", f"{r}x{c} with rounding errors")
    val = values(n, 0)
    ps, ss = sfp.sort_for_imshow(jit[::-1], val[::-1])
    ctx.check(ss.shape == (r, c, 1) and np.array_equal(ss, val.reshape(r, c, 1)[::-1]), "value", f"{r}x{c} with rounding errors")
    if case["ax"] in (0, 2) and n <= 6:
        if len(np.unique(np.round(x, 1))) == c and len(np.unique(np.round(y, 1))) == r:
            ps, ss = sfp.sort_for_imshow(np.round(pos, 1)[::-1], val[::-1], 2)
            ctx.check(ss.shape == (r, c, 1) and np.array_equal(ss, val.reshape(r, c, 1)[::-1]), "value", f"{r}x{c} with two decimals")
    ctx.trace()

def run_swap(ctx, case):
    r, c, n = case["r"], case["c"], case["r"] * case["c"]
    base = list(range(n))
    orders = [base[k:] + base[:k] for k in range(n)] + [base[::-1]] + [list(np.arange(n).reshape(r, c).T.reshape(-1))]
    for i in range(n):
        for j in range(i + 1, n):
            o = list(base); o[i], o[j] = o[j], o[i]
            orders.append(o)
    orders += [list(ctx.rng(r, c, k).permutation(n)) for k in range(20)]
    for k, o in enumerate(orders):
        look(ctx, r, c, case["ax"], o, k % 5, [None, 0, 1.5][k % 3])
        ctx.state(r, c, case["ax"], k)
    ctx.trace()

def run_plot(ctx, case):
    r, c = case["r"], case["c"]
    for ax_id in range(4):
        x, y, pos = grid(r, c, ax_id, 0.5)
        for order in (range(r * c), range(r * c)[::-1]):
            for lim in (None, (-2, 30)):
                ps, ss = sfp.sort_for_imshow(pos[list(order)], values(r * c, 0)[list(order)])
                mic = ar.MicArray("mic", np.array([[5.0, 6, 0]]))
                coll = ar.ArrayCollection()
                coll.add_array(mic)
                for extra in (None, mic, [mic], dict(a=mic), coll):
                    fig, ax = plt.subplots()
                    sfp.sf_plot(ax, ps, ss, "title", extra, lim)
                    im = ax.images[0]
                    ctx.step()
                    ctx.check(np.array_equal(np.squeeze(np.asarray(im.get_array())), np.squeeze(values(r * c, 0).reshape(r, c)[::-1])), "plot", f"{r}x{c}: image differs")
                    ctx.close(np.array(im.get_extent(), float), np.array([x.min(), x.max(), y.min(), y.max()]), "plot:extent", f"{r}x{c}")
                    ctx.close(np.array(im.get_clim(), float), np.array(lim or (1, r * c), float), "plot:range", f"{r}x{c}")
                    ctx.check(len(ax.lines) == (extra is not None) and all(np.array_equal(np.asarray(l.get_xydata(), float), [[5.0, 6.0]]) for l in ax.lines), "plot:arrays", f"{r}x{c}: {len(ax.lines)} arrays drawn")
                    ctx.check(im.origin == "upper" and ax.get_title() == "title", "plot:look", f"{r}x{c}")
                    plt.close(fig)
        size = sfp.size_of_2d_plot([pos, np.array([[7.0, -9, 2]])])
        ctx.close(size, np.array([7 - x.min(), y.max() + 9]), "plot:size", f"{r}x{c}")
        size = sfp.size_of_2d_plot([sfp.sort_for_imshow(pos, values(r * c, 0))[0]])
        ctx.close(size, np.array([x.max() - x.min(), y.max() - y.min()]), "plot:size", f"{r}x{c}")
        ctx.state("plot", r, c, ax_id)
    ctx.trace()

def run_compare(ctx, case):
    """several algorithms (rows) and values (columns) next to each other"""
    r, c, A, K = case["r"], case["c"], case["algos"], case["axes"]
    n = r * c
    x, y, pos = grid(r, c, (r + c) % 4, 0.5)
    base = list(range(n))
    orders = [base, base[::-1], base[1:] + base[:1], list(np.arange(n).reshape(r, c).T.reshape(-1))]
    if n == 4:
        orders = [list(o) for o in itertools.permutations(base)]
    mic, other = ar.MicArray("mic", np.array([[5.0, 6, 0]])), ar.MicArray("other", np.array([[-2.0, 1, 0], [0, 0, 0]]))
    for k, order in enumerate(orders):
        val = np.array([[[100.0 * a + 1000 * j + i for i in range(n)] for j in range(K)] for a in range(A)])
        sig = [v[:, order] for v in val]
        for arrays in ({}, dict(mic=mic), dict(mic=mic, b=other)):
            kw = dict(arrays_to_plot=arrays) if arrays or k % 2 else {}
            plt.close("all")
            p, s0 = pos[order], [v.copy() for v in sig]
            sfp.compare_soundfields(p, [sig, tuple(sig), np.array(sig)][k % 3], [f"algo {a}" for a in range(A)], [f"value {j}" for j in range(K)], **kw)
            ctx.step()
            what = f"{r}x{c} in the order {order}, {A} algorithms, {K} values"
            fig = plt.gcf()
            axes = [a for a in fig.axes if a.get_title()]
            by = {a.get_title(): a for a in axes}
            ctx.check(len(axes) == A * K and set(by) == {f"algo {a}, value {j}" for a in range(A) for j in range(K)}, "compare:axes", f"{what}: {sorted(by)}")
            for a, j in itertools.product(range(A), range(K)):
                ax = by.get(f"algo {a}, value {j}")
                if ax is None:
                    continue
                im = ax.images[0]
                ctx.check(np.array_equal(np.squeeze(np.asarray(im.get_array())), val[a, j].reshape(r, c)[::-1]), "compare:value", f"{what}: image {a} {j} differs")
                ctx.close(np.array(im.get_extent(), float), np.array([x.min(), x.max(), y.min(), y.max()]), "compare:extent", what)
                ctx.check(len(ax.lines) == len(arrays), "compare:arrays", f"{what}: {len(ax.lines)} arrays drawn")
            box = {t: by[t].get_subplotspec().get_topmost_subplotspec() for t in by}
            ctx.check(all(box[f"algo {a}, value {j}"].rowspan.start == a and box[f"algo {a}, value {j}"].colspan.start == j for a in range(A) for j in range(K) if f"algo {a}, value {j}" in by), "compare:place", what)
            ctx.check(all(np.array_equal(u, v) for u, v in zip(sig, s0)), "compare:input", what)
            plt.close("all")
        ctx.state("compare", r, c, A, K, order)
    ctx.trace()
