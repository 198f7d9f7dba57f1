"""C03: call schedule, causality and playback of a processor."""
import numpy as np
from mc import simkit as sk
LIGHT = True      # figures are not looked at
PROP = "C03"
BOUND = dict(quick="block sizes 1..6, totals 1..14 and 23, buffers 2B..2B+3, chunks B..B+3 and two longer, assign/add writing, feedback, pre-roll",
             thorough="block sizes 1..9, totals 1..40, buffers 2B..2B+6, chunks B..2B+4")
ASSUMPTIONS = ["admissible lengths: buffer >= 2 blocks, chunk >= 1 block (or chunk >= 2 with a buffer of several blocks)"]

def cases(tier, seed):
    full = tier == "thorough"
    for B in range(1, 10 if full else 7):
        tots = list(range(1, 41)) if full else list(range(1, 15)) + [23]
        for tot in tots:
            for db in range(0, 7 if full else 4):
                chunks = list(range(B, 2 * B + 5)) if full else [B, B + 1, B + 3, 5 * B]
                for chunk in chunks:
                    if full and (db + chunk + tot) % 2:
                        continue
                    yield dict(free=[1], ctrl=[2], mics=[1], L=3, buf=max(2, 2 * B + db), chunk=chunk, bs=B, tot=tot, feedback=(tot % 2 == 0))
        for mode in ("add", "set"):
            for start0 in (False, True):
                for f, c, m in [([1], [1], [2]), ([], [1], [1]), ([2], [], [1]), ([1], [1, 2], [1, 2])]:
                    yield dict(free=f, ctrl=c, mics=m, L=B + 2, buf=3 * B + 1, chunk=2 * B + 1, bs=B, tot=5 * B + 2, mode=mode, start0=start0, feedback=True)
    for B in range(1, 10 if full else 7):
        for tot in ([1, 2, 5, 7, 11, 12, 13, 30] if full else [1, 5, 11, 12]):
            yield dict(kind="debug", bs=B, tot=tot)
    for bs, chunk, buf in [(4, 2, 20), (4, 3, 30), (6, 2, 40), (5, 3, 20), (10, 5, 20)]:
        yield dict(free=[1], ctrl=[1], mics=[1], L=3, bs=bs, feedback=True, buf=buf, chunk=chunk, tot=43)

def run_debug(ctx, case):
    """the processor that comes with the package plays every block of the microphones one block later, and remembers both"""
    import aspsim.processor as bse
    import aspsim.diagnostics.diagnostics as dia
    B, tot = case["bs"], case["tot"]
    for num in (1, 2):
        for chunk, buf in ((B, 2 * B), (B + 1, 3 * B + 1), (5 * B, 2 * B + 2), (3 * B + 2, 20)):
            for start0 in (False, True):
                rng = ctx.rng("c03debug", num)
                T = tot + 4 * B + 2
                x, h, g = rng.normal(size=T), rng.normal(size=(num, 3)), rng.normal(size=(num, num, 3)) * 0.4
                from aspsim.simulator import SimulatorSetup
                import aspsim.signal.sources as sources
                s = SimulatorSetup(None, None)
                s.sim_info.reverb = "direct"; s.sim_info.plot_output = "none"
                s.sim_info.tot_samples, s.sim_info.sim_buffer, s.sim_info.sim_chunk_size = tot, max(2, buf), chunk
                s.sim_info.start_sources_before_0 = start0; s.sim_info.auto_save_load = False
                s.add_free_source("src", np.zeros((1, 3)), sources.Sequence(np.concatenate([np.zeros(max(2, buf) - 1 if start0 else 0), x])[None]))
                s.add_controllable_source("loudspeaker", np.ones((num, 3)))
                s.add_mics("mic", 2 * np.ones((num, 3)))
                s.set_path("src", "mic", h[None].copy())
                s.set_path("loudspeaker", "mic", g.copy())
                sim = s.create_simulator()
                proc = bse.DebugProcessor(sim.sim_info, sim.arrays, B)
                sim.add_processor(proc)
                f0 = np.array(proc.filt.ir)
                for n in ("mic", "loudspeaker"):
                    sim.diag.add_diagnostic("rec_" + n, dia.RecordSignal(n, sim.sim_info, num_channels=num))
                sim.run_simulation()
                mic, ls = np.zeros((num, T)), np.zeros((num, T))
                for t in range(T):
                    if t % B == 0 and t >= B:
                        w = min(B, T - t)
                        ls[:, t:t + w] = mic[:, t - B:t - B + w]
                    for k in range(3):
                        if t >= k:
                            mic[:, t] += h[:, k] * x[t - k] + g[:, :, k].T @ ls[:, t - k]
                what = f"{num} channels, block {B}, total {tot}, chunk {chunk}, buffer {buf}"
                ctx.close(sim.diag["rec_mic"].get_output(), mic[:, :tot], "debug:mic", what)
                ctx.close(sim.diag["rec_loudspeaker"].get_output(), ls[:, :tot], "debug:loudspeaker", what)
                ctx.close(proc.mic, mic[:, :tot], "debug:remembered", what)
                ctx.close(proc.ls, ls[:, :tot], "debug:remembered", what)
                ctx.check(tot <= proc.processed_samples <= tot + 2 * B and proc.processed_samples % B == 0 and np.allclose(proc.filt.ir - f0, proc.processed_samples), "debug:count", f"{what}: {proc.processed_samples}")
                ctx.state("debug", num, mic[:, :tot]); ctx.step(tot); ctx.trace()

def run_case(ctx, case):
    if case.get("kind") == "debug":
        return run_debug(ctx, case)
    sc = dict(case, watch=True)
    B, tot = sc["bs"], sc["tot"]
    d = sk.make_data(sc, ctx.rng("c03", *sk.topo_label(sc)))
    setup, sim, proc = sk.build(sc, d)
    sk.record_all(sim, sc)
    sim.run_simulation()
    ref = sk.Reference(sc, d, ahead=4 * B + 2)
    free, ctrl, mics = sk.names(sc)
    # schedule: at least the requested total is processed, one call per B samples, each asked for B samples
    ctx.check(proc.calls * B >= tot, "too-few-calls", f"{proc.calls} calls of {B} for {tot} samples")
    ctx.check(proc.calls * B <= tot + 2 * B, "too-many-calls", f"{proc.calls} calls of {B} for {tot} samples")
    ctx.check(all(int(v) == B for v in proc.shown), "block-argument", f"{proc.shown}")
    for k, seen in enumerate(proc.seen, 1):
        for n, v in seen.items():
            w = v.shape[1]
            if not ctx.check(w >= B, "history-too-short", f"call {k}: {w} samples of {n} visible"):
                continue
            if k * B > ref.G:
                continue
            ctx.close(v, ref.get(n, k * B - w, k * B), "mic-shown" if n in mics else "source-shown", f"call {k}, {n}, samples {k * B - w}..{k * B - 1}")
            ctx.state(n, v[:, -B:])
    for l in ctrl:
        ctx.close(sim.diag["rec_" + l].get_output(), ref.get(l, 0, tot), "loudspeaker-played", l)
    for m in mics:
        ctx.close(sim.diag["rec_" + m].get_output(), ref.get(m, 0, tot), "mic-response", m)
    ctx.step(tot); ctx.trace()
