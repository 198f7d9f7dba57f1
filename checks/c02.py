"""C02: buffer and chunk lengths are unobservable."""
import json
import numpy as np
import aspsim.diagnostics.core as core
import aspsim.diagnostics.diagnostics as dia
from mc import simkit as sk
LIGHT = True      # figures are not looked at
PROP = "C02"
BOUND = dict(quick="buffers 4..16 x chunks 1..16 (block sizes 0..4), plus (2..3) x 1..6 without a processor; 4 scenarios",
             thorough="buffers 2..30 x chunks 1..30, block sizes 0..7, 6 totals")
CHUNK = 4
SCEN = [dict(free=[2], ctrl=[], mics=[2, 1], L=5, bs=0), dict(free=[1], ctrl=[2], mics=[2], L=4, bs=1, feedback=True),
        dict(free=[1], ctrl=[1], mics=[1], L=3, bs=3, feedback=True), dict(free=[], ctrl=[1], mics=[2], L=6, bs=4)]
SCEN_T = SCEN + [dict(free=[2], ctrl=[1], mics=[1, 2], L=3, bs=5, feedback=True), dict(free=[1], ctrl=[1], mics=[1], L=9, bs=7, feedback=True)]

def ok(sc, buf, chunk):
    if not sc["bs"]:
        return buf >= 2 and chunk >= 1
    return buf >= 2 * sc["bs"] and chunk >= sc["bs"]

def cases(tier, seed):
    full = tier == "thorough"
    scen = SCEN_T if full else SCEN
    for i, sc in enumerate(scen):
        for tot in ([7, 12, 25, 38, 61, 90] if full else [29]):
            for buf in (range(2, 31) if full else range(2, 17)):
                for chunk in range(1, 31 if full else 17):
                    if not ok(sc, buf, chunk):
                        continue
                    if not full and buf < 4 and chunk > 6:
                        continue
                    yield dict(sc, buf=buf, chunk=chunk, tot=tot)
    # with pre-roll the buffer length is meaningful (C05); only the chunk length must not be
    for i, sc in enumerate(scen):
        for chunk in range(1, 14):
            for buf in (4, 9):
                if ok(sc, buf, chunk):
                    yield dict(sc, buf=buf, chunk=chunk, tot=23, start0=True)
    # chunks shorter than a block are admissible when the buffer is much longer than the block
    for bs, chunk, buf in [(4, 2, 20), (4, 3, 30), (6, 2, 40), (5, 3, 20)]:
        yield dict(free=[1], ctrl=[1], mics=[1], L=3, bs=bs, feedback=True, buf=buf, chunk=chunk, tot=31)

def observe(ctx, sc, sub):
    d = sk.make_data(sc, ctx.rng("c02", *sk.topo_label(sc)))
    base = ctx.dir / sub
    base.mkdir()
    sc = dict(sc, plot_output="pdf", contrib=True)
    setup, sim, proc = sk.build(sc, d, base=base)
    if proc:
        proc.watch = True
    sk.record_all(sim, sc, export_at=[sc["tot"]], export_func="npz")
    tot = sc["tot"]
    m0 = "m0"; nm = sc["mics"][0]
    ivs = [(1, 3), (6, 7), (8, min(19, tot - 3))] if tot > 12 else [(1, 3)]
    sim.diag.add_diagnostic("part", dia.RecordSignal(m0, sim.sim_info, num_channels=nm, export_at=[2, min(9, tot), tot], export_func="npz",
                                                     save_at=core.IntervalCounter(ivs)))
    sim.diag.add_diagnostic("pow", dia.SignalPower(m0, sim.sim_info, export_at=[tot], export_func="npz"))
    if proc:
        sim.diag.add_diagnostic("state", dia.RecordState("counter", 2, sim.sim_info, export_at=5, save_frequency=2, export_func="npz"))
        sim.diag.add_diagnostic("inst", dia.RecordFilter("mat", sim.sim_info, save_at=[3, 5, min(8, tot), tot] if tot > 8 else [3, tot], export_func="npz"))
    sim.run_simulation()
    obs = {"sig:" + n: dg.get_output() for n, dg in sim.diag.items() if n not in ("inst",)}
    files = {}
    for f in sorted(base.rglob("*")):
        if f.is_file() and f.suffix == ".npz":
            with np.load(f) as z:
                files[f.name] = {k: np.array(z[k]) for k in z.files}
        elif f.is_file():
            files[f.name] = None
    return obs, files, proc, sim

_BASE = {}
def run_case(ctx, case):
    sc = case
    big = dict(sc, chunk=400) if sc.get("start0") else dict(sc, buf=300, chunk=400)
    key = json.dumps([big, ctx.seed], sort_keys=True)
    if key not in _BASE:
        if len(_BASE) > 20:
            _BASE.clear()
        o, f, p, s = observe(ctx, big, "base")
        _BASE[key] = (o, f, p.seen if p else None)
    bobs, bfiles, bseen = _BASE[key]
    obs, files, proc, sim = observe(ctx, sc, "x")
    ctx.check(set(obs) == set(bobs), "diag-set", f"{set(obs) ^ set(bobs)}")
    for k in bobs:
        if k in obs:
            ctx.close(obs[k], bobs[k], "recording-differs", k)
            ctx.state(k, obs[k])
    if ctx.check(set(files) == set(bfiles), "export-set", f"files {sorted(set(files) ^ set(bfiles))}"):
        for f, v in bfiles.items():
            if v is not None and files[f] is not None:
                for k in v:
                    ctx.close(files[f].get(k, np.nan), v[k], "export-content", f"{f}:{k}")
    if proc:
        if ctx.check(len(proc.seen) == len(bseen), "call-count", f"{len(proc.seen)} calls, {len(bseen)} with long buffers"):
            for i, (a, b) in enumerate(zip(proc.seen, bseen)):
                for n in a:
                    k = min(a[n].shape[1], b[n].shape[1])
                    if not ctx.check(k >= min(sc["bs"], sc["bs"]), "history-too-short", f"call {i + 1}: {k} samples visible"):
                        break
                    ctx.close(a[n][:, a[n].shape[1] - k:], b[n][:, b[n].shape[1] - k:], "shown-differs", f"call {i + 1} signal {n}")
    ctx.step(sc["tot"]); ctx.trace()
