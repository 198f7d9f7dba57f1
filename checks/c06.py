"""C06: a signal recording holds exactly the requested samples."""
import itertools
import numpy as np
import aspsim.diagnostics.core as core
import aspsim.diagnostics.diagnostics as dia
from mc import simkit as sk
PROP = "C06"
BOUND = dict(quick="all 2^8-1 unions of intervals in 8 samples (each set written in 4 container forms, and split into adjacent pieces), all ordered channel selections of 3 channels, block 0..4, 4 buffers x 4 chunks",
             thorough="all 2^11-1 unions in 11 samples, buffers 4..14 x chunks 1..14, block 0..5")
CHUNK = 1

def runs(mask, n):
    out, start = [], None
    for i in range(n + 1):
        on = i < n and (mask >> i) & 1
        if on and start is None:
            start = i
        if not on and start is not None:
            out.append((start, i)); start = None
    return out

def cases(tier, seed):
    full = tier == "thorough"
    n = 11 if full else 8
    for bs in range(0, 6 if full else 5):
        bufs = range(4, 15) if full else [4, 5, 9, 30]
        chunks = range(1, 15) if full else [1, 3, 7, 30]
        for buf in bufs:
            for chunk in chunks:
                if bs and (buf < 2 * bs or chunk < bs):
                    continue
                if full and (buf + chunk) % 2:
                    continue
                yield dict(free=[1], ctrl=[1] if bs else [], mics=[2], L=3, bs=bs, buf=buf, chunk=chunk, tot=n, kind="sets")
    for buf, chunk, bs in itertools.product([4, 9], [3, 30], [0, 1, 2]):
        yield dict(free=[1], ctrl=[], mics=[3], L=3, bs=bs, buf=buf, chunk=chunk, tot=13, kind="channels")
        for tot in (1, 2, 3, 17, 40):
            yield dict(free=[1], ctrl=[], mics=[3], L=3, bs=bs, buf=buf, chunk=chunk, tot=tot, kind="default")

def run_case(ctx, case):
    sc = case
    d = sk.make_data(sc, ctx.rng("c06", *sk.topo_label(sc)))
    setup, sim, proc = sk.build(sc, d)
    tot, n = sc["tot"], sc["mics"][0]
    want = {}
    def add(name, nch, expect, **kw):
        sim.diag.add_diagnostic(name, dia.RecordSignal("m0", sim.sim_info, num_channels=nch, **kw))
        want[name] = expect
    full_ref = sk.Reference(sc, d).get("m0", 0, tot)
    def part(ivs, sig=full_ref):
        out = np.full(sig.shape, np.nan)
        for a, b in ivs:
            out[:, a:b] = sig[:, a:b]
        return out
    if sc["kind"] == "sets":
        forms = [lambda v: tuple(tuple(x) for x in v), lambda v: [list(x) for x in v], lambda v: np.array(v), lambda v: iter(v)]
        for mask in range(1, 1 << tot):
            ivs = runs(mask, tot)
            form = forms[mask % 4](ivs)
            add(f"set{mask}", n, part(ivs), save_at=core.IntervalCounter(form, *([sum(b - a for a, b in ivs)] if mask % 4 == 3 else [])))
        for cut in range(1, tot):
            for cut2 in range(cut + 1, tot):
                ivs = [(0, cut), (cut, cut2), (cut2, tot)]
                add(f"adj{cut}_{cut2}", n, part(ivs), save_at=core.IntervalCounter(ivs))
    elif sc["kind"] == "channels":
        ivs = [(2, 6), (7, 11)]
        for k in range(1, n + 1):
            for sel in itertools.permutations(range(n), k):
                add("ch" + "".join(map(str, sel)), k, full_ref[list(sel)], channel_idx=sel)
                add("chl" + "".join(map(str, sel)), k, part(ivs, full_ref[list(sel)]), channel_idx=list(sel), save_at=core.IntervalCounter(ivs))
                add("cha" + "".join(map(str, sel)), k, full_ref[list(sel)], channel_idx=np.array(sel))
        for i in range(n):
            add(f"int{i}", 1, full_ref[[i]], channel_idx=i)
    add("all", n, full_ref)
    sim.run_simulation()
    for name, w in want.items():
        ctx.close(sim.diag[name].get_output(), w, "recording-" + sc["kind"], f"{name}")
        ctx.step(tot)
        ctx.state(w, name if sc["kind"] == "sets" else "")
        ctx.trace()
