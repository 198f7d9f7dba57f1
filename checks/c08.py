"""C08: exports happen once per requested index and contain the data up to it."""
import itertools
import numpy as np
import aspsim.diagnostics.core as core
import aspsim.diagnostics.diagnostics as dia
from mc import simkit as sk, boot
from checks.c06 import runs
from checks.c07 import counter_at, mat_at
PROP = "C08"
BOUND = dict(quick="all 2^6 export-index lists x {signal, partial signal, state, snapshot} x {npz,text,plot,spectrum} in 6 samples; all 2^6 interval sets x 6 export lists; export frequencies 1..14 at tot 13; keep-last with 6 prefix-sharing names; snapshots as impulse response pictures and matrices; output off / no folder; block 0..3",
             thorough="all lists and interval sets in 8 samples, block 0..4, 4 buffer/chunk pairs")
CHUNK = 1

def inplace_half(x):
    x /= 2
    return x
def inplace_zero(x):
    x[...] = 0
    return x
def tens_at(c): return np.arange(24).reshape(2, 3, 4) * float(c)

def inplace_rev(x):
    x[...] = x[..., ::-1].copy()
    return x

def cases(tier, seed):
    full = tier == "thorough"
    n = 8 if full else 6
    bb = [(0, 4, 3), (1, 4, 2), (2, 6, 30), (3, 7, 4)] + ([(4, 9, 5), (0, 9, 30), (2, 4, 2)] if full else [])
    for bs, buf, chunk in bb:
        base = dict(free=[1], ctrl=[], mics=[2], L=3, bs=bs, buf=buf, chunk=chunk, export_frequency=4)
        per = 16
        for lo in range(1, 1 << n, per):
            for func in ("npz", "text", "plot", "spectrum"):
                yield dict(base, tot=n, kind="lists", lo=lo, hi=min(lo + per, 1 << n), func=func)
        for lo in range(1, 1 << n, per):
            yield dict(base, tot=n, kind="intervals", lo=lo, hi=min(lo + per, 1 << n))
        yield dict(base, tot=13, kind="freq")
        for part in range(6):
            yield dict(base, tot=13, kind="prep", part=part)
        yield dict(base, tot=13, kind="last")
        yield dict(base, tot=14, kind="multi")
        yield dict(base, tot=14, kind="multi", out="svg")
        for out in ("pdf", "svg"):
            if bs:
                yield dict(base, tot=9, kind="pictures", out=out)
        for mode in ("none", "nofolder"):
            yield dict(base, tot=7, kind="off", mode=mode)

def run_case(ctx, case):
    sc = dict(case, plot_output=case.get("out", "pdf"))
    tot, B, kind = sc["tot"], sc["bs"], sc["kind"]
    d = sk.make_data(sc, ctx.rng("c08", *sk.topo_label(sc)))
    boot.FIGS.clear()
    base = ctx.dir
    if kind == "off":
        if sc["mode"] == "none":
            sc["plot_output"] = "none"
        else:
            base = None
    setup, sim, proc = sk.build(sc, d, base=base)
    si = sim.sim_info
    ref = sk.Reference(sc, d).get("m0", 0, tot)
    want = {}         # file -> (content kind, value)
    counts = {}       # diagnostic -> number of expected exports
    seen = {}
    def counting(name):
        def pp(x):
            seen[name] = seen.get(name, 0) + 1
            return x
        return pp
    def upto(sig, ivs, E):
        idx = [t for t in range(tot) if t < E and any(a <= t < b for a, b in ivs)]
        return sig[:, idx], idx
    def expect(name, func, E, val, idx=None):
        if func == "npz":
            want[f"{name}_{E}.npz"] = ("npz", name, val)
        elif func == "text":
            want[f"{name}_{E}.json"] = ("text", name, val)
        elif func in ("plot", "spectrum"):
            want[f"{name}_{E}.{sc['plot_output']}"] = (func, name, val, idx)
        elif func in ("ir", "matshow"):
            want[f"{name}_{E}.{sc['plot_output']}"] = (func, name, val)
    def signal(name, func, at, ivs=None, last=False, pp=None, ppw=None, **kw):
        kwargs = dict(export_at=at, export_func=func, keep_only_last_export=last, preprocess=[[counting(name)] + (pp or [])], **kw)
        if ivs is not None:
            kwargs["save_at"] = core.IntervalCounter(ivs)
        sim.diag.add_diagnostic(name, dia.RecordSignal("m0", si, num_channels=2, **kwargs))
        es = indices(at, si.export_frequency)
        counts[name] = len(es)
        for i, E in enumerate(es):
            v, idx = upto(ref, ivs or [(0, tot)], E)
            for f in (ppw or pp or []):
                v = f(v)
            if not (last and i < len(es) - 1) or func != "npz":
                expect(name, func, E, v, idx)
    def indices(at, default):
        if at is None:
            at = default
        return list(range(at, tot + 1, at)) if isinstance(at, int) else [E for E in at if E <= tot]
    def state(name, func, at, f, last=False):
        sim.diag.add_diagnostic(name, dia.RecordState("counter", 2, si, save_frequency=f, export_at=at, export_func=func, keep_only_last_export=last, preprocess=[[counting(name)]]))
        es = indices(at, si.export_frequency)
        counts[name] = len(es)
        for i, E in enumerate(es):
            xs = [X for X in range(f, tot + 1, f) if X - 1 < E]
            v = np.stack([counter_at(X // B) for X in xs], axis=-1) if xs else np.zeros((2, 0))
            if not (last and i < len(es) - 1) or func != "npz":
                expect(name, func, E, v, [X - 1 for X in xs])
    def snap(name, func, at, last=False):
        sim.diag.add_diagnostic(name, dia.RecordFilter("mat", si, save_at=at, export_func=func, keep_only_last_export=last, preprocess=[[counting(name)]]))
        es = indices(at, si.export_frequency)
        counts[name] = len(es)
        for i, E in enumerate(es):
            if not (last and i < len(es) - 1) or func != "npz":
                expect(name, func, E, mat_at(E // B))
    ex = [1, tot]
    if kind == "lists":
        func = sc["func"]
        for mask in range(sc["lo"], sc["hi"]):
            at = [i + 1 for i in range(tot) if (mask >> i) & 1]
            at = [at, tuple(at), np.array(at)][mask % 3]
            signal(f"zsig{mask}", func, at)
            signal(f"zpart{mask}", func, at, ivs=[(1, 2), (3, 5)] if tot >= 6 else None)
            if B and func in ("npz", "plot"):
                state(f"zst{mask}", func, at, 1 + mask % 3)
            if B and func in ("npz", "text"):
                snap(f"zin{mask}", func, list(at))
    elif kind == "intervals":
        for mask in range(sc["lo"], sc["hi"]):
            ivs = runs(mask, tot)
            for j, at in enumerate([[tot], [1], [2, 3], [1, 3, tot], 2, 3]):
                signal(f"ziv{mask}x{j}", "npz", at, ivs=ivs)
    elif kind == "freq":
        for f in range(1, 15):
            signal(f"zsig{f}", "npz", f)
            signal(f"zkeep{f}", "npz", f, last=True)
            signal(f"zpp{f}", "npz", f, pp=[lambda x: x * 2, lambda x: x[:1] + 1])
            if B:
                state(f"zst{f}", "npz", f, 3); state(f"zsu{f}", "npz", 5, f); snap(f"zin{f}", "npz", f); snap(f"zil{f}", "npz", f, last=True)
        signal("zdefault", "npz", None)
        signal("zbeyond", "npz", [2, 5, tot + 1, tot + 7])
        if B:
            snap("zindefault", "npz", None); state("zstdefault", "npz", None, 2)
    elif kind == "prep":
        # the preprocessing of every export starts from the recorded values, whatever the preprocessing functions do to their argument
        def smoothed(k):
            return lambda x: np.array([[sum(x[c, max(0, t - k + 1):t + 1]) / k for t in range(x.shape[1])] for c in range(x.shape[0])]).reshape(x.shape)
        def clipped(a, b):
            return lambda x: np.where(x < a, a, np.where(x > b, b, x))
        import aspsim.diagnostics.preprocessing as pre
        pow2 = lambda x: x ** 2 + 0.1
        pairs = {"linear": ([pre.linear], [lambda x: x]), "clip": ([pre.clip(-0.2, 0.3)], [clipped(-0.2, 0.3)]), "dbp": ([pow2, pre.db_power], [pow2, lambda x: 10 * np.log10(x)]),
                 "dba": ([pow2, pre.db_amplitude], [pow2, lambda x: 20 * np.log10(x)]), "log": ([pow2, pre.natural_log], [pow2, lambda x: np.log(x)]),
                 "half": ([inplace_half], [lambda x: x / 2]), "zero": ([inplace_zero], [lambda x: 0 * x]), "rev": ([inplace_rev, inplace_half], [lambda x: x[:, ::-1] / 2])}
        for k in range(1, tot + 3):
            pairs[f"sm{k}"] = ([pre.smooth(k)], [smoothed(k)])
            pairs[f"mix{k}"] = ([pow2, pre.smooth(k), inplace_half, pre.db_power], [pow2, smoothed(k), lambda x: x / 2, lambda x: 10 * np.log10(x)])
        for key, (fs, ws) in list(pairs.items())[sc["part"]::6]:
            for j, at in enumerate([1, 3, (2, tot), list(range(1, tot + 1, 2))]):
                for func in ("npz", "plot") if j != 1 else ("npz", "text", "plot", "spectrum"):
                    signal(f"z{key}{func}{j}", func, at, pp=fs, ppw=ws)
                signal(f"z{key}part{j}", "npz", at, ivs=[(1, 4), (6, 10)], pp=fs, ppw=ws)
            # two exports of one diagnostic with different preprocessing
            name = f"ztwo{key}"
            sim.diag.add_diagnostic(name, dia.RecordSignal("m0", si, num_channels=2, export_at=4, export_func=["npz", "plot"], export_kwargs=[{}, {}], preprocess=[[counting(name)] + fs, [counting(name)]]))
            counts[name] = 2 * (tot // 4)
            for E in range(4, tot + 1, 4):
                v, idx = upto(ref, [(0, tot)], E)
                expect(name, "plot", E, v, idx)
                for f in ws:
                    v = f(v)
                expect(name, "npz", E, v)
            if B:
                name = f"zst{key}"
                sim.diag.add_diagnostic(name, dia.RecordState("counter", 2, si, save_frequency=2, export_at=3, export_func="npz", preprocess=[fs]))
                for E in range(3, tot + 1, 3):
                    v = np.stack([counter_at(X // B) for X in range(2, E + 1, 2)], axis=-1)
                    for f in ws:
                        v = f(v)
                    expect(name, "npz", E, v)
                if key not in ("rev",):
                    name = f"zin{key}"
                    sim.diag.add_diagnostic(name, dia.RecordFilter("mat", si, save_at=3, export_func="npz", preprocess=[fs]))
                    for E in range(3, tot + 1, 3):
                        v = mat_at(E // B)
                        for f in ws:
                            v = f(v)
                        expect(name, "npz", E, v)
        signal("zraw", "npz", 2)
    elif kind == "last":
        for name in ("z", "z_1", "z1", "zz", "z_1_2", "z_"):
            signal(name, "npz", 3 if name != "z_1" else 2, last=True)
        signal("z_x", "npz", 3, last=False)
        decoys = ["z_2.txt", "z_a2.npz", "xz_2.npz", "z_2_b.npz", "zz2.npz", "z-3.npz", "zother_3.npz"]
        for f in decoys:
            (sim.folder_path / f).write_bytes(b"decoy")
    elif kind == "multi":
        for name, last in (("zm", True), ("zn", False)):
            sim.diag.add_diagnostic(name, dia.RecordSignal("m0", si, num_channels=2, export_at=[3, 7, 14], export_func=["npz", "text", "plot"], export_kwargs=[{}, {}, {}],
                                    keep_only_last_export=last, preprocess=[[counting(name)], [lambda x: x ** 2], []]))
            counts[name] = 3
            for i, E in enumerate([3, 7, 14]):
                v, idx = upto(ref, [(0, tot)], E)
                if not last or i == 2:
                    expect(name, "npz", E, v)
                expect(name, "text", E, v ** 2)
                expect(name, "plot", E, v, idx)
        sim.diag.add_diagnostic("zcall", dia.RecordSignal("m0", si, num_channels=2, export_at=[5], export_func="npz", preprocess=counting("zcall")))
        counts["zcall"] = 1
        expect("zcall", "npz", 5, upto(ref, [(0, tot)], 5)[0])
    elif kind == "pictures":
        # snapshots drawn as impulse responses (one picture per output channel, one line per input channel) and as matrices
        prep = {"": ([], lambda x: x), "sq": ([lambda x: x ** 2], lambda x: x ** 2), "two": ([inplace_half, lambda x: x + 1], lambda x: x / 2 + 1)}
        for j, at in enumerate([1, 2, 4, [3], [1, 5, 9], (2, 3), np.array([4, 8])]):
            for p, (fs, w) in prep.items():
                for last in (False, True):
                    for func, prop, val in (("plot", "tens", tens_at), ("matshow", "mat", mat_at)):
                        name = f"z{func}{j}{p}{'k' if last else ''}"
                        sim.diag.add_diagnostic(name, dia.RecordFilter(prop, si, save_at=at, export_func=[func, "npz"], export_kwargs=[{}, {}], keep_only_last_export=last, preprocess=[[counting(name)] + fs, fs]))
                        es = indices(at, si.export_frequency) if isinstance(at, int) else [int(E) for E in at]
                        counts[name] = len(es)
                        for i, E in enumerate(es):
                            expect(name, "ir" if func == "plot" else func, E, w(val(E // B)))
                            if not last or i == len(es) - 1:
                                expect(name, "npz", E, w(val(E // B)))
    elif kind == "off":
        signal("zsig", "npz", 2); signal("ztext", "text", [3, tot]); signal("zplot", "plot", 3); signal("zwav", "wav", 3)
        want.clear(); counts.clear()
    sim.run_simulation()
    if kind == "off":
        left = [str(f) for f in ctx.dir.rglob("*") if f.is_file()]
        ctx.check(not left, "exported-although-off", left)
        ctx.check(not boot.FIGS, "figure-although-off", boot.FIGS)
        ctx.step(tot); ctx.trace(); ctx.state(kind)
        return
    got = sk.read_folder(sim.folder_path) if kind != "last" else sk_read(sim.folder_path)
    if kind == "last":
        for f in decoys:
            ctx.check(got.get(f) == b"decoy", "other-file-touched", f)
            got.pop(f, None)
    mine = {f: v for f, v in got.items() if f.startswith("z")}
    ctx.check(set(mine) == set(want), "export-set", lambda: f"missing {sorted(set(want) - set(mine))[:6]}, unexpected {sorted(set(mine) - set(want))[:6]}")
    for f, w in want.items():
        if f not in mine:
            continue
        v = mine[f]
        if w[0] == "npz":
            ctx.check(list(v) == [w[1]], "export-key", f"{f}: {list(v)}")
            ctx.close(list(v.values())[0], w[2], "export-content", f)
        elif w[0] == "text":
            ctx.check(list(v) == [w[1]], "export-key", f"{f}: {list(v)}")
            if np.size(w[2]):
                ctx.close(list(v.values())[0], np.mean(w[2]), "export-content", f)
        elif w[0] == "plot":
            ys = [ln[2] for ln in v["lines"]]
            if ctx.check(len(ys) == len(w[2]), "plot-lines", f"{f}: {len(ys)} lines"):
                for c in range(len(ys)):
                    ctx.close(ys[c], w[2][c], "plot-content", f)
                    if w[3] is not None:       # a state after X samples stands at index X - 1
                        ctx.close(v["lines"][c][1], w[3], "plot-time-axis", f)
        elif w[0] == "ir":
            ys = [ln[2] for ln in v["lines"]]
            if ctx.check(len(ys) == w[2].shape[0] * w[2].shape[1], "plot-lines", f"{f}: {len(ys)} lines"):
                for i, y in enumerate(ys):
                    ctx.close(y, w[2][i % w[2].shape[0], i // w[2].shape[0]], "plot-content", f"{f} line {i}")
        elif w[0] == "matshow":
            if ctx.check(len(v["images"]) >= 1, "plot-lines", f"{f}: no picture"):
                ctx.close(v["images"][0][0], w[2], "plot-content", f)
        elif w[0] == "spectrum":
            ys = [ln[2] for ln in v["lines"]]
            flat = sorted(tuple(np.round(np.ravel(y), 9)) for y in ys)
            exp = sorted(tuple(np.round(np.ravel(y), 9)) for y in w[2])
            ctx.check(flat == exp or np.size(w[2]) == 0, "spectrum-content", f"{f}: {flat}, expected {exp}")
        ctx.state(w[2]); ctx.trace()
    for name, c in counts.items():
        k = 1
        ctx.check(seen.get(name, 0) == c, "export-count", f"{name}: exported {seen.get(name, 0)} times, {c} indices requested")
    figs = [r["path"] for r in boot.FIGS]
    ctx.check(len(figs) == len(set(figs)), "exported-twice", [p for p in set(figs) if figs.count(p) > 1])
    ctx.step(tot * len(counts))

def sk_read(folder):
    out = {}
    for f in folder.iterdir():
        if f.read_bytes() == b"decoy":
            out[f.name] = b"decoy"
            f.unlink()
    out.update(sk.read_folder(folder))
    return out
