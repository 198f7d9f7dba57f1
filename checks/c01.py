"""C01: microphone signals are the superposition of all source-path convolutions."""
import itertools, json, os, subprocess, sys
import numpy as np
from mc import simkit as sk
LIGHT = True      # figures are not looked at
PROP = "C01"
BOUND = dict(quick="<=2 free arrays x <=2 loudspeaker arrays x <=2 mic arrays, <=2 channels each, paths of 1..30 samples, buffers 4..24, chunks 1..24, totals 1..47; one JIT-enabled pass",
             thorough="as quick with all array combinations, all buffers 4..24, all chunks 1..24")
ASSUMPTIONS = ["the pre-roll is covered by C05, moving arrays by C19"]

FREE = [[], [1], [2], [2, 1]]
CTRL = [[], [1], [2, 1]]
MICS = [[1], [2], [1, 2]]
def topologies(full):
    for f, c, m in itertools.product(FREE, CTRL, MICS):
        if f or c:
            yield f, c, m

def cases(tier, seed):
    full = tier == "thorough"
    bufs = [(4, 4), (5, 3), (9, 4), (12, 30), (24, 5), (50, 50)]
    for L in ([1, 2, 4, 9, 30] if not full else [1, 2, 3, 4, 5, 9, 14, 30]):
        for (f, c, m) in topologies(full):
            for buf, chunk in bufs:
                for bs in ([0] if not c else [0, 1, 2]):
                    if bs and (buf < 2 * bs or chunk < bs):
                        continue
                    for tot in ([1, 23] if L < 30 else [47]):
                        yield dict(free=f, ctrl=c, mics=m, L=L, buf=buf, chunk=chunk, bs=bs, tot=tot, feedback=bs == 2)
    # wrap-around sweep on one rich topology
    rng = range(4, 25)
    for buf in rng:
        for chunk in range(1, 25):
            for bs in (0, 1, 3):
                if not full and (buf * 7 + chunk * 3 + bs) % 3:
                    continue
                if bs and (chunk < bs or buf < 2 * bs):
                    continue
                yield dict(free=[2], ctrl=[1], mics=[2], L=6, buf=buf, chunk=chunk, bs=bs, tot=41, feedback=True)
    # arrays added in every order
    for order in itertools.permutations("fcm"):
        yield dict(free=[2, 1], ctrl=[1], mics=[1, 2], L=4, buf=9, chunk=7, bs=2, tot=30, order="".join(order), feedback=True)
    # every order of adding single arrays (source and microphone arrays interleaved)
    for order in itertools.permutations(["s0", "s1", "l0", "m0", "m1"]):
        if full or order[0] in ("m0", "s1") or order[1] == "m1":
            yield dict(free=[1, 1], ctrl=[1], mics=[1, 1], L=3, buf=9, chunk=7, bs=2, tot=17, order=list(order), feedback=True)
    # special contents of paths and signals (equal, shared, sparse, silent, integer, single precision, ...)
    for f, c, m in ([[1, 1], [], [1, 1]], [[2], [2], [2]], [[2, 1], [1], [1, 2]], [[1, 1, 1], [1, 1], [1]]):
        for pk in [None] + sk.PATHKINDS:
            for xk in [None] + sk.XKINDS:
                if not (pk or xk) or (pk and xk and not full and (len(pk) + len(xk)) % 3):
                    continue
                for L in (1, 5, 12):
                    for buf, chunk, bs in ((9, 5, 0), (8, 11, 2)):
                        if bs == 0 or c:
                            yield dict(free=f, ctrl=c, mics=m, L=L, sameL=pk in ("same", "shared"), buf=buf, chunk=chunk, bs=bs, tot=31, feedback=bs == 2 and pk != "huge", pathkind=pk, xkind=xk)
    yield dict(jit=True, seed=seed)

def run_sim(ctx, sc):
    d = sk.make_data(sc, ctx.rng("c01", *sk.topo_label(sc)))
    setup, sim, proc = sk.build(sc, d)
    sk.record_all(sim, sc)
    sim.run_simulation()
    ref = sk.Reference(sc, d)
    free, ctrl, mics = sk.names(sc)
    for n in list(mics):
        got = sim.diag["rec_" + n].get_output()
        k = 1e9 if sc.get("pathkind") == "tiny" else 1.0
        ctx.close(k * got, k * ref.get(n, 0, sc["tot"]), "mic-not-superposition", f"signal {n}")
        ctx.states_of(got)
    # the source signals are what the sources produced and the processor wrote (so the mic oracle is not vacuous)
    for n in list(free) + list(ctrl):
        ctx.close(sim.diag["rec_" + n].get_output(), ref.get(n, 0, sc["tot"]), "source-signal", f"signal {n}")
    ctx.step(sc["tot"]); ctx.trace()

JIT_CASES = [dict(free=[2, 1], ctrl=[1], mics=[2, 1], L=5, buf=8, chunk=6, bs=2, tot=33, feedback=True),
             dict(free=[1], ctrl=[], mics=[2], L=9, buf=5, chunk=3, bs=0, tot=25),
             dict(free=[], ctrl=[2], mics=[1], L=3, buf=9, chunk=9, bs=3, tot=31, feedback=True)]

def run_case(ctx, case):
    if not case.get("jit"):
        return run_sim(ctx, case)
    if os.environ.get("NUMBA_DISABLE_JIT") == "1":
        # the same traces with the compiled filters, in a fresh process
        env = dict(os.environ); env["NUMBA_DISABLE_JIT"] = "0"
        code = ("import json,sys\nfrom mc import boot,core\nboot.close()\nimport checks.c01 as m\nbad=[];n=0\n"
                f"for c in m.JIT_CASES:\n  x=core.run_one(m,c,{ctx.seed},'quick'); bad+=x.violations; n+=x.transitions\n"
                "sys.stderr.write('RESULT '+json.dumps([bad,n])+'\\n')\n")
        p = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True, timeout=170)
        line = [l for l in p.stderr.splitlines() if l.startswith("RESULT ")]
        if not line:
            raise RuntimeError("JIT pass failed: " + p.stderr[-600:])
        bad, n = json.loads(line[0][7:])
        for k, msg in bad:
            ctx.fail(k, "JIT: " + msg)
        ctx.step(n); ctx.trace(len(JIT_CASES))
