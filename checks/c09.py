"""C09: observing a simulation does not change it."""
import itertools
import numpy as np
import aspsim.diagnostics.core as core
import aspsim.diagnostics.diagnostics as dia
import aspsim.diagnostics.diagnosticscollection as dcol
import aspsim.diagnostics.preprocessing as pp
from mc import simkit as sk, boot
PROP = "C09"
TECH = "explicit-state exploration of the real simulator: all subsets, orders and reconfigurations of diagnostics, differential against each one alone"
BOUND = dict(quick="all 2^8 subsets of 8 diagnostics (signal, partial signal, power, ratio, state, snapshot, state summary, power spectrum) with files exported, all 4-permutations of 6, 40 reconfigurations of one with all others present; 3 buffer/chunk/block set-ups",
             thorough="all 2^10 subsets of 10 diagnostics, all 5-permutations of 7, reconfigurations; 6 set-ups, with and without processor")
CHUNK = 1
SETUPS = [dict(bs=2, buf=4, chunk=3), dict(bs=0, buf=5, chunk=2), dict(bs=3, buf=20, chunk=40), dict(bs=1, buf=3, chunk=2), dict(bs=4, buf=9, chunk=5), dict(bs=0, buf=8, chunk=30)]
TOT = 13

def kinds(bs):
    k = ["sig", "part", "power", "ratio", "spec", "sum", "wav"]
    return (k[:5] + ["state", "snap", "ssum"] + k[5:]) if bs else k

def cases(tier, seed):
    full = tier == "thorough"
    for s in (SETUPS if full else SETUPS[:3]):
        base = dict(free=[1], ctrl=[1] if s["bs"] else [], mics=[2, 1], L=3, feedback=bool(s["bs"]), tot=TOT, export_frequency=4, contrib=s["bs"] == 2, **s)
        ks = kinds(s["bs"])[:10 if full else 8]
        n = 1 << len(ks)
        for lo in range(0, n, 16):
            yield dict(base, kind="subsets", lo=lo, hi=min(n, lo + 16), ks=ks)
        perms = list(itertools.permutations(range(7 if full else 6), 5 if full else 4))
        for lo in range(0, len(perms), 30):
            yield dict(base, kind="orders", lo=lo, hi=min(len(perms), lo + 30), ks=ks)
        for i in range(len(ks)):
            yield dict(base, kind="reconf", which=i, ks=ks)

def make(kind, si, **over):
    """one diagnostic; `over` replaces its export configuration"""
    kw = {}
    if kind == "sig":
        kw = dict(export_at=3, export_func="npz", keep_only_last_export=True); kw.update(over)
        return dia.RecordSignal("m0", si, num_channels=2, **kw)
    if kind == "part":
        kw = dict(export_at=[2, 7, TOT], export_func="plot", preprocess=[[pp.smooth(2), lambda x: x ** 2]]); kw.update(over)
        return dia.RecordSignal("m0", si, num_channels=1, channel_idx=[1], save_at=core.IntervalCounter([(1, 4), (6, 9)]), **kw)
    if kind == "power":
        kw = dict(export_at=[5, 6], export_func="text"); kw.update(over)
        return dia.SignalPower("m1", si, **kw)
    if kind == "ratio":
        kw = dict(export_at=4, export_func="npz"); kw.update(over)
        return dia.SignalPowerRatio("m0", "s0", si, **kw)
    if kind == "wav":
        kw = dict(export_at=[9], export_func="wav"); kw.update(over)
        return dia.RecordSignal("m1", si, num_channels=1, **kw)
    if kind == "state":
        kw = dict(export_at=4, export_func=["npz", "plot"], export_kwargs=[{}, {}], keep_only_last_export=True)
        if "export_func" in over or "preprocess" in over:
            kw = dict(kw, export_func="npz", export_kwargs={})
        kw.update(over)
        return dia.RecordState("counter", 2, si, save_frequency=2, **kw)
    if kind == "ssum":
        kw = dict(export_at=[6, 11], export_func="plot"); kw.update(over)
        return dia.StateSummary(np.sum, "obj['k'][0]", si, save_frequency=3, **kw)
    if kind == "snap":
        at = over.pop("export_at", 4)
        kw = dict(export_func="npz"); kw.update(over)
        return dia.RecordFilter("mat", si, save_at=at, **kw)
    if kind == "spec":
        over = {k: v for k, v in over.items() if k in ("preprocess",)}
        return dcol.SignalPowerSpectrum("m0", si, (2, 12), 2, 8, **over)
    if kind == "sum":
        over = {k: v for k, v in over.items() if k in ("preprocess",)}
        return dcol.SignalSummary("m0", si, (1, 11), **over)

def inplace(x):
    x *= 0.5
    return x

RECONF = [dict(export_at=v) for v in (1, 2, 5, TOT, [1], [TOT], [3, 4, 5, 6])] + [dict(keep_only_last_export=v) for v in (True, False)] \
    + [dict(preprocess=[[lambda x: x * 3]]), dict(preprocess=[[lambda x: x + 1, np.abs]]), dict(preprocess=[[inplace]]), dict(preprocess=[[inplace]], export_at=1)] \
    + [dict(export_func=["npz", "plot"], export_kwargs=[{}, {}]), dict(export_func="plot"), dict(export_func="npz", export_at=1)]

def run(ctx, sc, diags, folder, plot="pdf"):
    """diags: list of (name, kind, overrides); returns everything observable"""
    d = run.data
    boot.FIGS.clear()
    folder.mkdir()
    setup, sim, proc = sk.build(dict(sc, watch=True, plot_output=plot), d, base=folder)
    for name, kind, over in diags:
        sim.diag.add_diagnostic(name, make(kind, sim.sim_info, **dict(over)))
    sim.run_simulation()
    out = {}
    for name, _, _ in diags:
        files = {}
        if plot != "none":
            files = {f: v for f, v in sk.read_folder(sim.folder_path).items() if f.split("_")[0] == name}
        val = sim.diag[name].get_output()
        out[name] = (np.array(val), files)
    core_obs = None
    if proc is not None:
        core_obs = [proc.calls, proc.shown, proc.seen, proc.counter, proc.obj["k"], proc.mat]
    n_sim = {n: np.array(v) for n, v in sim.sig.items()}
    ctx.step(sc["tot"]); ctx.trace()
    return out, core_obs, n_sim

def run_case(ctx, case):
    sc = case
    run.data = sk.make_data(sc, ctx.rng("c09", *sk.topo_label(sc)))
    ks = sc["ks"]
    solo = {}
    none_out, none_core, none_sig = run(ctx, sc, [], ctx.dir / "none")
    cnt = itertools.count()
    def go(diags, key, plot="pdf", compare=None):
        out, co, sig = run(ctx, sc, diags, ctx.dir / f"r{next(cnt)}", plot)
        ctx.check(sk.same(co, none_core), key + "-processor", lambda: f"{[d[0] for d in diags]}: what the processor is shown or computes differs from the run without diagnostics")
        for n in none_sig:
            ctx.check(sk.same(sig[n], none_sig[n]), key + "-signal", f"{[d[0] for d in diags]}: signal {n} differs from the run without diagnostics")
        for name, kind, over in diags:
            if compare is not None and name not in compare:
                continue
            if name not in solo:
                solo[name] = run(ctx, sc, [(name, kind, over)], ctx.dir / f"s{name}")[0][name]
            ctx.check(sk.same(out[name][0], solo[name][0]), key + "-output", lambda: f"{name} among {[d[0] for d in diags]}: {out[name][0]}, alone {solo[name][0]}")
            if plot != "none":
                ctx.check(sk.same(out[name][1], solo[name][1]), key + "-files", lambda: f"{name} among {[d[0] for d in diags]}: {sorted(out[name][1])}, alone {sorted(solo[name][1])}")
            ctx.state(name, out[name][0], sorted(out[name][1]))
    full = [("z" + k, k, {}) for k in ks]
    if sc["kind"] == "subsets":
        for mask in range(sc["lo"], sc["hi"]):
            go([f for i, f in enumerate(full) if (mask >> i) & 1], "subset", plot="none" if mask % 7 == 3 else "pdf")
    elif sc["kind"] == "orders":
        perms = list(itertools.permutations(range(7 if len(ks) > 8 and ctx.tier == "thorough" else 6), 5 if ctx.tier == "thorough" else 4))[sc["lo"]:sc["hi"]]
        for p in perms:
            go([full[i] for i in p if i < len(full)], "order")
    else:
        i = sc["which"]
        name, kind, _ = full[i]
        others = [f for j, f in enumerate(full) if j != i]
        more = [dict(label_suffix_channel=["x", "y"]), dict(label_suffix_channel=["one", "two"], export_func="plot")] if kind == "state" else []
        for k, over in enumerate(RECONF + more):
            if kind == "snap" and "export_at" in over and not isinstance(over["export_at"], int):
                over = dict(over, export_at=list(over["export_at"]))
            if kind in ("wav",) and over.get("export_at") == 1:
                continue
            o = dict(over)
            if kind == "snap" and o.get("export_func") in ("plot",) or kind == "snap" and isinstance(o.get("export_func"), list):
                o["export_func"] = "text"; o.pop("export_kwargs", None)
            if isinstance(o.get("export_func"), list):
                o["preprocess"] = None
            go(others[:2] + [(name, kind, o)] + others[2:], "reconf", compare={f[0] for f in others})
