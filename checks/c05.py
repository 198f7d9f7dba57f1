"""C05: start of the sources, pre-roll, contiguity of the source stream."""
import numpy as np
from mc import simkit as sk
LIGHT = True      # figures are not looked at
PROP = "C05"
BOUND = dict(quick="both start modes, buffers 2..14 x 4 chunk lengths x 4 path lengths x 4 topologies x block sizes 0..3",
             thorough="buffers 2..26 x chunks 1..14, path lengths 1..20")
TOPO = [([1], [], [1]), ([2], [], [2]), ([1, 2], [], [1, 2]), ([1], [1], [1])]

def cases(tier, seed):
    full = tier == "thorough"
    for start0 in (False, True):
        for buf in range(2, 27 if full else 15):
            for chunk in (range(1, 15) if full else (1, 4, 6, 30)):
                for f, c, m in TOPO:
                    for L in ([1, 2, 6, 13, 20] if full else [1, 4, 13]):
                        for bs in (0, 1, 2, 3):
                            if bs and (chunk < bs or buf < 2 * bs) or (not bs and c):
                                continue
                            if not full and (buf + chunk + bs + L) % 2:
                                continue
                            yield dict(free=f, ctrl=c, mics=m, L=L, buf=buf, chunk=chunk, bs=bs, tot=17, start0=start0)
                yield dict(free=[1, 2], ctrl=[], mics=[2], L=3, buf=buf, chunk=chunk, bs=0, tot=1, start0=start0)

def run_case(ctx, case):
    sc = dict(case, watch=True, contrib=True)
    d = sk.make_data(sc, ctx.rng("c05", *sk.topo_label(sc)))
    setup, sim, proc = sk.build(sc, d)
    sk.record_all(sim, sc)
    sim.run_simulation()
    ref = sk.Reference(sc, d, ahead=20)
    free, ctrl, mics = sk.names(sc)
    tot, buf = sc["tot"], sc["buf"]
    for s in free:
        got = sim.diag["rec_" + s].get_output()
        first = buf - 1 if sc["start0"] else 0
        ctx.close(got, d["x"][s][:, first:first + tot], "source-stream", f"{s}: first sample should be number {first} of the stream")
        ctx.states_of(got)
        src = sim.arrays[s].source
        ctx.check(src.pos == sum(src.calls) and src.pos >= first + tot, "stream-requests", f"{src.pos} samples requested")
    for m in mics:
        got = sim.diag["rec_" + m].get_output()
        ctx.close(got, ref.get(m, 0, tot), "mic-at-start", m)
        ctx.states_of(got)
        for s in {**free, **ctrl}:
            ctx.close(sim.diag[f"rec_{s}~{m}"].get_output(), ref.get(f"{s}~{m}", 0, tot), "contribution-at-start", f"{s}~{m}")
    if proc:
        B = sc["bs"]
        for k, seen in enumerate(proc.seen, 1):
            for n, v in seen.items():
                w = v.shape[1]
                # only what lies within one buffer length of the start is visible history
                ctx.close(v, ref.get(n, k * B - w, k * B), "history", f"call {k}, {n}, samples {k * B - w}..{k * B - 1}")
            if k * B > tot + B:
                break
    ctx.step(tot); ctx.trace()
