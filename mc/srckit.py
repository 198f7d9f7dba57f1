"""Every source kind with small parameters: name -> factory (fresh, identically seeded)."""
import numpy as np
import aspsim.signal.sources as so

def table(c, n, seed=0):
    return np.random.default_rng(100 + seed).normal(size=(c, n))

def factories(full=False):
    g = lambda: np.random.default_rng(7)
    F = {}
    for c in (1, 2, 3):
        for n in ((1, 2, 3, 4, 7) if not full else (1, 2, 3, 4, 5, 6, 7, 11)):
            F[f"seq_repeat c{c} n{n}"] = lambda c=c, n=n: so.Sequence(table(c, n), 0.5, "repeat")
            F[f"seq_zeros c{c} n{n}"] = lambda c=c, n=n: so.Sequence(table(c, n), -2, "zeros")
        F[f"seq_raise c{c}"] = lambda c=c: so.Sequence(table(c, 2000), 1.5, "raise")
        F[f"seq_int c{c}"] = lambda c=c: so.Sequence(np.arange(5 * c).reshape(c, 5), 0.25)
        for seed in (None, 7):
            r = (lambda: None) if seed is None else g
            s = f"c{c} seed{seed}"
            F[f"white {s}"] = lambda c=c, r=r: so.WhiteNoiseSource(c, 0.7, r())
            F[f"white_vec {s}"] = lambda c=c, r=r: so.WhiteNoiseSource(c, np.arange(1.0, c + 1), r())
            F[f"sine {s}"] = lambda c=c, r=r: so.SineSource(c, 0.7, 83.5, 1000, r())
            F[f"sine_vec {s}"] = lambda c=c, r=r: so.SineSource(c, np.arange(1.0, c + 1), 130, 1000, r())
            F[f"band {s}"] = lambda c=c, r=r: so.BandlimitedNoiseSource(c, 0.7, (150, 300), 1000, r())
            F[f"band_vec {s}"] = lambda c=c, r=r: so.BandlimitedNoiseSource(c, np.arange(1.0, c + 1), (150, 300), 1000, r())
            F[f"autocorr {s}"] = lambda c=c, r=r: so.AutocorrSource(c, autocorr(c), r())
        for p in (1, 2, 3, 5):
            for d in (0, 1, 4):
                F[f"pulse c{c} p{p} d{d}"] = lambda c=c, p=p, d=d: so.PulseTrain(c, 1.5, p, d)
        F[f"pulse_vec c{c}"] = lambda c=c: so.PulseTrain(c, list(range(1, c + 1)), tuple(range(2, c + 2)), np.arange(c))
        for o in ((5, 6, 7) if not full else (5, 6, 7, 8, 9, 10, 11)):
            F[f"gold c{c} o{o}"] = lambda c=c, o=o: so.GoldSequenceSource(c, 0.7, o)
        F[f"gold_vec c{c}"] = lambda c=c: so.GoldSequenceSource(c, np.arange(1.0, c + 1), 5)
        F[f"array c{c}"] = lambda c=c: so.SourceArray(lambda a, p: so.PulseTrain(1, a, p), c, [float(i + 1) for i in range(c)], 3)
        F[f"array_noise c{c}"] = lambda c=c: so.SourceArray(lambda a: so.WhiteNoiseSource(1, a, np.random.default_rng(int(a))), c, [float(i + 1) for i in range(c)])
    for k in (1, 2, 4):
        for seed in (None, 7):
            r = (lambda: None) if seed is None else g
            F[f"multisine k{k} seed{seed}"] = lambda k=k, r=r: so.MultiSineSource(1, 0.7, np.array([50.0, 120.5, 33, 200])[:k], 1000, r())
    for s in (0, 5, -3):
        F[f"counter {s}"] = lambda s=s: so.Counter(1, s)
    for o in (2, 3, 4, 5):
        F[f"mls o{o}"] = lambda o=o: so.MLS(1, o, None)
        F[f"mls_state o{o}"] = lambda o=o: so.MLS(1, o, None, state=[1] + [0] * (o - 1))
    F["mls_poly"] = lambda: so.MLS(1, 5, [2], state=np.array([0, 1, 0, 1, 1]))
    F["seq_1d"] = lambda: so.Sequence(table(1, 3)[0], 2)
    return F

def autocorr(c):
    out = np.zeros((c, 4))
    for i in range(c):
        out[i] = (i + 1) * np.array([1, 0.5 - 0.1 * i, 0.2, 0.05])
    return out

def channels(name):
    for w in name.split():
        if w[0] == "c" and w[1:].isdigit():
            return int(w[1:])
    return 1
