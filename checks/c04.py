"""C04: separate source contributions are exact and add up."""
import itertools
import numpy as np
from mc import simkit as sk
LIGHT = True      # figures are not looked at
PROP = "C04"
BOUND = dict(quick="<=2 free + <=2 loudspeaker + <=2 mic arrays, modified/none/direct/ism paths, 5 buffer/chunk pairs, with/without pre-roll and processor",
             thorough="as quick with buffers 4..14 x chunks 3..14")
TOPO = [([1], [], [1]), ([2], [], [1]), ([1, 2], [], [2]), ([2, 1], [], [1, 2]), ([1], [1], [1]), ([1], [2], [2, 1]), ([], [1], [2]), ([1, 1], [1, 2], [1, 2]), ([1], [], [])]

def cases(tier, seed):
    full = tier == "thorough"
    bc = [(b, c) for b in range(4, 15) for c in range(3, 15)] if full else [(4, 4), (6, 3), (9, 5), (12, 40), (40, 40)]
    for f, c, m in TOPO:
        for buf, chunk in bc:
            for start0 in (False, True):
                for bs in ([0] if not c else [0, 1, 2, 3]):
                    if bs and (buf < 2 * bs or chunk < bs):
                        continue
                    for L in (1, 4, 11):
                        yield dict(free=f, ctrl=c, mics=m, L=L, buf=buf, chunk=chunk, tot=21, bs=bs, start0=start0, feedback=True)
    for rv in ("none", "direct", "ism"):
        for buf, chunk in bc[:5]:
            for start0 in (False, True):
                yield dict(free=[2, 2], ctrl=[2], mics=[2, 2], L=4, buf=buf, chunk=chunk, tot=21, bs=2, start0=start0, feedback=True, reverb=rv, paths=False, irlen=6)

def run_case(ctx, case):
    sc = dict(case, contrib=True, watch="contrib")
    d = sk.make_data(sc, ctx.rng("c04", *sk.topo_label(sc)))
    setup, sim, proc = sk.build(sc, d)
    if not sc.get("paths", True):
        d["h"] = {s: {m: np.array(sim.arrays.paths[s][m]) for m in sim.arrays.paths[s]} for s in sim.arrays.paths}
    sk.record_all(sim, sc)
    sim.run_simulation()
    ref = sk.Reference(sc, d)
    free, ctrl, mics = sk.names(sc)
    tot = sc["tot"]
    for m, n in mics.items():
        tot_c = np.zeros((n, tot))
        for s in {**free, **ctrl}:
            got = sim.diag[f"rec_{s}~{m}"].get_output()
            ctx.close(got, ref.get(f"{s}~{m}", 0, tot), "contribution", f"{s}~{m}")
            ctx.state(got)
            tot_c = tot_c + got
        ctx.close(tot_c, sim.diag["rec_" + m].get_output(), "sum-of-contributions", m)
        ctx.close(sim.diag["rec_" + m].get_output(), ref.get(m, 0, tot), "mic", m)
    # what a processor can look back at, the pre-roll included
    for k, seen in enumerate(proc.seen if proc else [], 1):
        if k * sc["bs"] > ref.G:
            break
        for n, v in seen.items():
            w = v.shape[1]
            ctx.close(v, ref.get(n, k * sc["bs"] - w, k * sc["bs"]), "contribution-history" if "~" in n else "history", f"call {k}, {n}")
    # the option is an observation only
    sc2 = dict(case, contrib=False)
    d2 = d
    setup2, sim2, proc2 = sk.build(sc2, d2)
    sk.record_all(sim2, sc2)
    sim2.run_simulation()
    for n in list(free) + list(ctrl) + list(mics):
        ctx.close(sim.diag["rec_" + n].get_output(), sim2.diag["rec_" + n].get_output(), "option-changes-signal", n)
    ctx.step(2 * tot); ctx.trace()
