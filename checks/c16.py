"""C16: a source's stream does not depend on how it is requested in blocks."""
import itertools
import numpy as np
import aspsim.signal.sources as so
from mc import srckit
PROP = "C16"
TECH = "stateless exploration on the real sources: all compositions of N into block lengths from several starting points, with a second instance requested in between, for every source kind; differential against one request of a fresh source"
BOUND = dict(quick="every source kind, 1 to 3 channels, all 256 compositions of N=9 at the start and after 1, 6 and 29 samples, all two-block splits of 150 samples, second instance interleaved between all blocks, returned blocks overwritten by the caller; three sources made from one array in every order",
             thorough="all 8192 compositions of N=14, all two-block splits of 2100 samples")
CHUNK = 2

def cases(tier, seed):
    t = tier == "thorough"
    for name in srckit.factories(t):
        yield dict(src=name, n=9, pre=[0, 1, 6, 29], splits=150)
    for name in aliased():
        yield dict(aliased=name)
    if t:
        for name in srckit.factories(t):
            yield dict(src=name, n=14, pre=[0], splits=150)
            yield dict(src=name, n=6, pre=[2, 13, 24, 30, 58, 61], splits=1900)

def aliased():
    """sources made from arrays of the caller: name -> (arrays, constructor)"""
    f8 = lambda *s: np.random.default_rng(2).normal(size=s)
    rng = lambda: np.random.default_rng(7)
    out = {}
    for c in (1, 2, 3):
        for arr, kind in ((f8(c, 7), "float"), (np.arange(7 * c).reshape(c, 7), "int"), (np.asfortranarray(f8(c, 7)), "fortran"), (f8(c, 14)[:, ::2], "view"), (f8(c, 7).astype(np.float32), "f32")) + (((f8(7), "1d"),) if c == 1 else ()):
            for mode in ("repeat", "zeros", "raise"):
                out[f"seq c{c} {kind} {mode}"] = ([arr], c, lambda a, k, mode=mode: so.Sequence(a, (0.5, 3, -1)[k], mode), 7)
        v = np.arange(1.0, c + 1)
        out[f"white c{c}"] = ([v], c, lambda a, k: so.WhiteNoiseSource(a.size, a, rng()), 60)
        out[f"sine c{c}"] = ([v], c, lambda a, k: so.SineSource(a.size, a, 83.5 + k, 1000, rng()), 60)
        out[f"band c{c}"] = ([v], c, lambda a, k: so.BandlimitedNoiseSource(a.size, a, (150, 300 + k), 1000, rng()), 60)
        out[f"gold c{c}"] = ([v], c, lambda a, k: so.GoldSequenceSource(a.size, a, 5), 60)
        out[f"auto c{c}"] = ([srckit.autocorr(c)], c, lambda a, k: so.AutocorrSource(a.shape[0], a, rng()), 60)
        out[f"pulse c{c}"] = ([v * 1.5, np.arange(2, c + 2), np.arange(c)], c, lambda a, p, d, k: so.PulseTrain(len(a), a, p, d), 60)
        out[f"pulsef c{c}"] = ([v * 1.5, np.arange(2.0, c + 2), np.arange(float(c))], c, lambda a, p, d, k: so.PulseTrain(len(a), a, p, d), 60)
    for n in (1, 3):
        out[f"multi k{n}"] = ([np.array([50.0, 120.5, 33])[:n]], 1, lambda a, k: so.MultiSineSource(1, 0.7, a, 1000, rng()), 60)
    for o in (3, 5):
        out[f"mls o{o}"] = ([np.array([1] + [0] * (o - 1))], 1, lambda a, k: so.MLS(1, len(a), None, state=a), 60)
    return out

def run_aliased(ctx, case):
    """several sources made from one array: none of them disturbs the others or the array"""
    arrays, c, make, N = aliased()[case["aliased"]]
    before = [a.copy() for a in arrays]
    want = [np.array(make(*[a.copy() for a in before], k=k).get_samples(N), dtype=float) for k in range(3)]
    for order in itertools.permutations(range(3)):
        for b in (1, 2, N):
            got = {}
            srcs = {k: make(*arrays, k=k) for k in order}
            for s in range(0, N, b):
                for k in order:
                    x = srcs[k].get_samples(min(b, N - s))
                    got.setdefault(k, []).append(np.array(x, dtype=float))
                    if x.flags.writeable:
                        x[...] = 77
                    ctx.step()
            for k in order:
                ctx.close(np.concatenate(got[k], axis=1), want[k], "aliased", f"{case['aliased']}: sources {order} made from the same array, source {k}, blocks of {b}", tol=1e-9)
            for a, w in zip(arrays, before):
                ctx.check(np.array_equal(a, w), "input-changed", f"{case['aliased']}: the array given by the caller has been changed")
            ctx.state(case["aliased"], order, b)
            ctx.trace()

def comps(n):
    for cuts in range(1 << (n - 1)):
        out, last = [], 0
        for i in range(1, n):
            if cuts >> (i - 1) & 1:
                out.append(i - last); last = i
        yield out + [n - last]

def play(ctx, src, blocks, C, key, other=None):
    out = []
    for i, b in enumerate(blocks):
        x = src.get_samples(b)
        ctx.step()
        ctx.check(isinstance(x, np.ndarray) and x.shape == (C, b), "shape", f"{key}: {np.shape(x)} for {C} channels and {b} samples")
        out.append(np.array(x, dtype=float).reshape(C, b) if np.size(x) == C * b else np.full((C, b), np.nan))
        if x.flags.writeable:
            x[...] = 77          # the block belongs to the caller
        if other is not None:
            other(i, b)
    return np.concatenate(out, axis=1)

def run_case(ctx, case):
    if "aliased" in case:
        return run_aliased(ctx, case)
    make = srckit.factories(True)[case["src"]]
    C = srckit.channels(case["src"])
    N, top = case["n"], max(case["pre"]) + case["n"]
    whole = play(ctx, make(), [max(top, case["splits"])], C, "whole")
    ctx.check(bool(np.all(np.isfinite(whole))), "finite", "not finite")
    ctx.close(play(ctx, make(), [max(top, case["splits"])], C, "again"), whole, "fresh", "a fresh source gives another signal", tol=0)
    for pre in case["pre"]:
        for k, blocks in enumerate(comps(N)):
            seen = []
            b = make()
            def other(i, n):
                if k % 2 == 0 or i % 2:
                    m = 1 + (i + n) % 4
                    seen.append(np.array(b.get_samples(m), dtype=float).reshape(C, m)); ctx.step()
            got = play(ctx, make(), ([pre] if pre else []) + blocks, C, "blocks", other)
            ctx.close(got, whole[:, :pre + N], "stream", f"blocks {pre}+{blocks}", tol=1e-9)
            if seen:
                s = np.concatenate(seen, axis=1)
                ctx.close(s, whole[:, :s.shape[1]] if s.shape[1] <= whole.shape[1] else make().get_samples(s.shape[1]), "other", f"second instance, blocks {blocks}", tol=1e-9)
            ctx.state(pre, blocks)
            ctx.trace()
    for k in range(1, case["splits"]):
        got = play(ctx, make(), [k, case["splits"] - k], C, "split")
        ctx.close(got, whole[:, :case["splits"]], "stream", f"blocks {k}+{case['splits'] - k}", tol=1e-8)
        ctx.state("split", k)
        ctx.trace()
