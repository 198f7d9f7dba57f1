"""C17: each source produces the signal its definition promises."""
import itertools
import numpy as np
import aspsim.signal.sources as so
from mc import srckit
from checks.c16 import comps
PROP = "C17"
TECH = "exhaustive enumeration of small source parameters on the real sources, requested in all compositions of short blocks, compared with independent closed-form definitions (own shift registers, recurrences and DFT for sinusoids, linearity in the power for noise)"
BOUND = dict(quick="sequences of 1..6 samples x 1..3 channels x 5 factors x 3 end modes in all compositions; pulse trains with periods 1..7 and delays 0..9 in every argument form; all start states of registers of order 2..7; Gold orders 5..11 and 13; sinusoids at 40 frequencies; powers changed after every sample 0..8",
             thorough="sequences of 1..9 samples, periods 1..16 and delays 0..20, registers of order 2..10, Gold orders 15 and 17, sinusoids at 200 frequencies")
CHUNK = 4
FACTORS = [1, -1, 0.5, 3, 0]
# primitive polynomials (inner taps) with which a register of the order has the full period
PRIM = {2: [1], 3: [2], 4: [3], 5: [3], 6: [5], 7: [6], 8: [7, 6, 1], 9: [5], 10: [7]}

def cases(tier, seed):
    t = tier == "thorough"
    for n in range(1, 10 if t else 7):
        for c in (1, 2, 3):
            for mode in ("repeat", "zeros", "raise"):
                yield dict(kind="seq", n=n, c=c, mode=mode)
    for c in (1, 2, 3):
        for p in range(1, 17 if t else 8):
            yield dict(kind="pulse", c=c, period=p, dmax=20 if t else 9)
    for c in (1, 2, 3):
        for lo in range(0, 200 if t else 40, 10):
            yield dict(kind="sine", c=c, lo=lo, n=200 if t else 40)
    for k in range(1, 6):
        yield dict(kind="multi", k=k)
    yield dict(kind="counter")
    for o in range(2, 11 if t else 8):
        yield dict(kind="mls", order=o)
    for o in [*range(5, 12), 13] + ([15, 17] if t else []):
        for c in (1, 2, 3, 5):
            yield dict(kind="gold", order=o, c=c)
    for c in (1, 2, 3):
        for kind in ("white", "band", "gold"):
            for at in range(0, 9):
                yield dict(kind="power", what=kind, c=c, at=at)
    for c in (1, 2, 3):
        yield dict(kind="auto", c=c)
    for k in (1, 2, 3):
        yield dict(kind="array", k=k)
    for what in ("white", "band"):
        for c in (1, 2):
            yield dict(kind="level", what=what, c=c)

def run_case(ctx, case):
    globals()["run_" + case["kind"]](ctx, case)
    ctx.trace()

def run_seq(ctx, case):
    n, c, mode = case["n"], case["c"], case["mode"]
    rng = ctx.rng("audio")
    for audio in [rng.normal(size=(c, n)), rng.integers(-4, 5, size=(c, n))] + ([rng.normal(size=n)] if c == 1 else []):
        a2 = np.array(audio, dtype=float).reshape(c, n)
        for f in FACTORS:
            for N in ((n, 2 * n + 1, 2 * n + 2) if mode != "raise" else (n,)):
                if N > 10:
                    continue
                want = f * np.stack([a2[:, t % n] if mode == "repeat" or t < n else np.zeros(c) for t in range(N)], axis=1)
                for blocks in comps(N):
                    s = so.Sequence(audio.copy(), f, mode)
                    ctx.check(s.num_channels == c, "channels", f"{s.num_channels}")
                    got = []
                    for b in blocks:
                        ctx.step()
                        got.append(np.array(s.get_samples(b)))
                    ctx.close(np.concatenate(got, axis=1), want, f"seq-{mode}", f"factor {f} blocks {blocks}")
                    if mode == "raise":
                        for after in (1, 3):
                            try:
                                s.get_samples(after)
                                ctx.fail("seq-raise-end", f"blocks {blocks}: no exception after the last sample")
                            except Exception:
                                pass
                    ctx.state(f, mode, blocks)
    if mode == "repeat":      # the default
        s = so.Sequence(a2)
        ctx.close(s.get_samples(3 * n), np.tile(a2, (1, 3)), "seq-default", "default factor and end mode")

def run_pulse(ctx, case):
    c, p = case["c"], case["period"]
    N = 3 * p + case["dmax"] + 3
    for d in range(case["dmax"] + 1):
        amp = [1.5, -2.0, 0.25][:c]
        per = [p, p + 1, max(1, p - 1)][:c]
        dl = [d, d + 2, max(0, d - 1)][:c]
        forms = [(2.5, p, d), (amp, per, dl), (tuple(amp), tuple(per), tuple(dl)), (np.array(amp), np.array(per), np.array(dl)), (amp, p, dl), (2.5, per, d), (3, np.int64(p), np.float64(d))]
        for A, P, D in forms:
            s = so.PulseTrain(c, A, P, D)
            ch = lambda v, i: v[i] if isinstance(v, (list, tuple, np.ndarray)) else v
            want = np.array([[ch(A, i) if (t - ch(D, i)) % ch(P, i) == 0 else 0.0 for t in range(N)] for i in range(c)])
            got = np.concatenate([s.get_samples(1), s.get_samples(4), s.get_samples(N - 5)], axis=1)
            ctx.step(3)
            ctx.close(got, want, "pulse", f"amplitude {A} period {P} delay {D}", tol=1e-12)
            ctx.state(got)
    s = so.PulseTrain(c, 1.0, p)
    ctx.close(s.get_samples(2 * p + 1), np.tile((np.arange(2 * p + 1) % p == 0).astype(float), (c, 1)), "pulse-default", "default delay")

def tone(ctx, x, amp, w, key, what):
    """x is amp*cos(w t + phase): recurrence and amplitude"""
    ctx.close(x[2:] + x[:-2], 2 * np.cos(w) * x[1:-1], key + ":frequency", what, tol=1e-7)
    ctx.close(x[:-1] ** 2 * np.sin(w) ** 2 + (x[1:] - np.cos(w) * x[:-1]) ** 2, np.full(len(x) - 1, amp ** 2 * np.sin(w) ** 2), key + ":amplitude", what, tol=1e-7)

def run_sine(ctx, case):
    c = case["c"]
    for i in range(case["lo"], case["lo"] + 10):
        f = 500.0 * (i + 0.5) / case["n"]
        for sr in (1000, 1000.0, 2000):
            for power in (0.5, 2, 3.3, np.linspace(0.2, 3, c)):
                s = so.SineSource(c, power, f, sr, np.random.default_rng(i))
                x = np.concatenate([s.get_samples(k) for k in (1, 2, 20, 37)], axis=1)
                ctx.step(4)
                ctx.check(x.shape == (c, 60), "sine:shape", f"{x.shape}")
                for k in range(c):
                    tone(ctx, x[k], np.sqrt(2 * np.broadcast_to(power, (c,))[k]), 2 * np.pi * f / sr, "sine", f"{f} Hz at {sr} power {power} channel {k}")
                ctx.state(f, sr, x)

def run_multi(ctx, case):
    sr, N = 1000, 200
    for bins in itertools.combinations([3, 10, 11, 40, 77, 99], case["k"]):
        for power in (0.5, 1, 4):
            for typ in (np.array, list, tuple):
                s = so.MultiSineSource(1, power, typ([b * sr / N for b in bins]), sr, np.random.default_rng(sum(bins)))
                x = np.concatenate([s.get_samples(k) for k in (7, 1, 92, 100)], axis=1)
                ctx.step(4)
                X = np.abs(np.fft.rfft(x[0])) / (N / 2)
                want = np.zeros(N // 2 + 1)
                want[list(bins)] = np.sqrt(2 * power / len(bins))
                ctx.check(x.shape == (1, N), "multi:shape", f"{x.shape}")
                ctx.close(X, want, "multi", f"bins {bins} power {power}", tol=1e-7)
                ctx.state(bins, power)

def run_counter(ctx, case):
    for start in (-7, -1, 0, 1, 2, 100, np.int64(5)):
        for blocks in comps(6):
            s = so.Counter(1, start)
            got = np.concatenate([s.get_samples(b) for b in blocks], axis=1)
            ctx.step(len(blocks))
            ctx.close(got, start + np.arange(6.0)[None], "counter", f"start {start}, blocks {blocks}")
            ctx.state(start, blocks)
    ctx.close(so.Counter(1).get_samples(4), np.arange(4.0)[None], "counter-default", "default start")

def register(order, taps, state, n):
    """linear feedback shift register: state is a list, the first element is the output; new = out xor taps"""
    s = [int(bool(v)) for v in state]
    out = []
    for _ in range(n):
        o = s[0]
        fb = o
        for t in taps:
            fb ^= s[t % order]
        out.append(2 * o - 1)
        s = s[1:] + [fb]
    return np.array(out, dtype=float)

def period(x, n):
    return next(p for p in range(1, n + 1) if np.array_equal(x[p:p + n], x[:n]))

def run_mls(ctx, case):
    o = case["order"]
    P = 2 ** o - 1
    for taps in ([None, PRIM[o]] + ([[PRIM[o][0]] + [1, 2]] if o > 4 else [])):
        for state in [None] + list(itertools.product((0, 1), repeat=o)):
            if state is not None and not any(state):
                continue
            for form in (list, np.array):
                s = so.MLS(1, o, taps, state=None if state is None else form(state))
                x = np.concatenate([s.get_samples(k) for k in (1, 2, P, P)], axis=1)
                ctx.step(4)
                ctx.check(x.shape == (1, 2 * P + 3), "mls:shape", f"{x.shape}")
                x = np.asarray(x, dtype=float).ravel()
                start = [1] * o if state is None else state
                ctx.close(x[:o], 2.0 * np.array(start) - 1, "mls:start", f"state {state}")
                if taps is not None:
                    ctx.close(x, register(o, taps, start, len(x)), "mls:register", f"taps {taps} state {state}")
                if taps is None or taps == PRIM[o]:
                    ctx.check(period(x, P) == P and np.sum(x[:P]) == 1 and set(x) == {-1, 1}, "mls:period", f"taps {taps} state {state}: period {period(x, P)}, sum {np.sum(x[:P])}")
                ctx.state(o, taps, x)

def run_gold(ctx, case):
    o, c = case["order"], case["c"]
    P = 2 ** o - 1
    ref = None
    for power in (1, 0.5, np.float64(3), np.linspace(0.5, 2, c), np.linspace(0.5, 2, c)[:, None], np.array(2.0)):
        s = so.GoldSequenceSource(c, power, o)
        x = np.concatenate([s.get_samples(k) for k in (1, P - 3, 5, P - 3)], axis=1)
        ctx.step(4)
        amp = np.sqrt(np.broadcast_to(np.asarray(power, dtype=float).reshape(-1, 1), (c, 1)))
        ctx.check(x.shape == (c, 2 * P), "gold:shape", f"{x.shape}")
        ctx.close(np.abs(x), np.broadcast_to(amp, x.shape), "gold:power", f"power {power}")
        ctx.close(x[:, P:], x[:, :P], "gold:period", f"power {power}")
        u = np.round(x[:, :P] / amp)
        if ref is None:
            ref = u
            F = np.fft.fft(u, axis=1)
            values = {(-1 - 2 ** ((o + 2) // 2)), -1, -1 + 2 ** ((o + 2) // 2)}       # preferred pairs
            for i, j in itertools.combinations(range(c), 2):
                cc = set(np.round(np.fft.ifft(F[i] * F[j].conj()).real).astype(int).tolist())
                ctx.check(max(abs(v) for v in cc) < P, "gold:distinct", f"channels {i} and {j} are shifts of each other")
                if o % 4:
                    ctx.check(cc <= values, "gold:correlation", f"channels {i} and {j}: correlation {sorted(cc)}")
        ctx.close(u, ref, "gold:scale", "another power gives another sequence")
        ctx.state(o, c, x[:, :50])

def noise(what, c, power, seed=5):
    r = np.random.default_rng(seed)
    if what == "white": return so.WhiteNoiseSource(c, power, r)
    if what == "band": return so.BandlimitedNoiseSource(c, power, (150, 300), 1000, r)
    return so.GoldSequenceSource(c, power, 5)

def run_power(ctx, case):
    what, c, at = case["what"], case["c"], case["at"]
    N = 60
    unit = noise(what, c, 1.0).get_samples(N)
    ctx.check(unit.shape == (c, N), "power:shape", f"{unit.shape}")
    vec = np.linspace(0.3, 2.5, c)
    for p in (0.25, 4, 1e-6, 1e6, 0.0, np.float64(2), vec):
        amp = np.sqrt(np.broadcast_to(p, (c,)))[:, None]
        ctx.close(noise(what, c, p).get_samples(N), amp * unit, f"power:{what}", f"power {p}")
        ctx.step()
    # changed after `at` samples: linear in the two parts
    base = noise(what, c, 1.0)
    head = noise(what, c, 1.0)
    h = np.concatenate([head.get_samples(at), zero(head, what, c, N - at)], axis=1) if at else np.zeros((c, N))
    for p in (0.25, 9, vec, np.array([2.0])):
        for q in (0.25, 9, vec):
            s = noise(what, c, p)
            first = s.get_samples(at) if at else np.zeros((c, 0))
            s.set_power(q)
            got = np.concatenate([first, s.get_samples(3), s.get_samples(N - at - 3)], axis=1)
            ctx.step(3)
            a, b = [np.sqrt(np.broadcast_to(v, (c,)))[:, None] for v in (p, q)]
            want = a * h + b * (unit - h)
            ctx.close(got, want, f"set_power:{what}", f"{p} to {q} after {at}", tol=1e-7)
            ctx.state(what, at, got)

    # every sequence of three changes counts by its last value only, zero powers included
    hole = vec.copy(); hole[0] = 0
    values = [0.25, 9, 0.0, np.float64(0), np.float64(2), vec, hole, np.zeros(c)]
    for p in (values if at in (0, 3) else values[1:3]):
        for qs in itertools.product(range(len(values)), repeat=2):
            s = noise(what, c, p)
            first = s.get_samples(at) if at else np.zeros((c, 0))
            for q in qs:
                s.set_power(values[q])
            got = np.concatenate([first, s.get_samples(3), s.get_samples(N - at - 3)], axis=1)
            ctx.step(3)
            a, b = [np.sqrt(np.broadcast_to(v, (c,)))[:, None] for v in (p, values[qs[-1]])]
            ctx.close(got, a * h + b * (unit - h), f"set_power:{what}", f"{p} to {[str(values[q]) for q in qs]} after {at}", tol=1e-7)
            ctx.state(what, at, str(p), qs)

def zero(s, what, c, n):
    """what a source still plays after its power is set to zero"""
    s.set_power(0.0)
    return s.get_samples(n)

def run_auto(ctx, case):
    c = case["c"]
    r = srckit.autocorr(c)
    mk = lambda ac: so.AutocorrSource(c, ac, np.random.default_rng(3))
    x = mk(r).get_samples(400)
    ctx.check(x.shape == (c, 400), "auto:shape", f"{x.shape}")
    for k in (0.25, 2, 100):
        ctx.close(mk(k * r).get_samples(400), np.sqrt(k) * x, "auto:power", f"autocorrelation times {k}", tol=1e-7)
        ctx.step()
    # every channel has its own level, from the first sample on and whatever the other channels play
    for ks in itertools.product((1e-4, 1, 100), repeat=c):
        k = np.array(ks)[:, None]
        ctx.close(mk(k * r).get_samples(60) / np.sqrt(k), x[:, :60], "auto:channel-power", f"channels times {ks}", tol=1e-7)
        ctx.step()
    # the output is the autoregressive process of the requested correlation: whitening gives independent noise of the predicted power
    long = mk(r).get_samples(60000)
    for ch in range(c):
        R = np.array([[r[ch, abs(i - j)] for j in range(3)] for i in range(3)])
        a = np.linalg.solve(R, r[ch, 1:])
        p = r[ch, 0] - r[ch, 1:] @ a
        e = long[ch, 3:] - sum(a[k] * long[ch, 2 - k:-1 - k] for k in range(3))
        ctx.check(abs(np.var(e) / p - 1) < 0.1, "auto:noise", f"channel {ch}: innovation power {np.var(e)}, predicted {p}")
        for lag in range(4):
            est = np.mean(long[ch, 100:59000] * long[ch, 100 + lag:59000 + lag])
            ctx.check(abs(est - r[ch, lag]) < 0.1 * r[ch, 0], "auto:correlation", f"channel {ch} lag {lag}: {est}, requested {r[ch, lag]}")
        for o in range(ch):
            ctx.check(abs(np.corrcoef(long[ch], long[o])[0, 1]) < 0.05, "auto:independent", f"channels {o} and {ch} are correlated")
        ctx.state(ch, e[:100])

def run_array(ctx, case):
    k = case["k"]
    for amp in ([1.0, 2.0, 3.5][:k], 2.0, 3):
        s = so.SourceArray(lambda a, p, d: so.PulseTrain(2, a, p, d), k, amp, 3, 1)
        want = np.concatenate([so.PulseTrain(2, amp[i] if isinstance(amp, list) else amp, 3, 1).get_samples(9) for i in range(k)], axis=0)
        ctx.close(np.concatenate([s.get_samples(4), s.get_samples(5)], axis=1), want, "array", f"amplitude {amp}")
        ctx.step()
    ctx.state(k)

def run_level(ctx, case):
    what, c = case["what"], case["c"]
    for power in (0.25, 3.0, np.linspace(0.5, 2, c)):
        x = noise(what, c, power).get_samples(40000)
        want = np.broadcast_to(power, (c,))
        ctx.step()
        for ch in range(c):
            ctx.check(abs(np.mean(x[ch] ** 2) / want[ch] - 1) < 0.15, f"level:{what}", f"channel {ch}: power {np.mean(x[ch] ** 2)}, requested {want[ch]}")
            if what == "band":
                S = np.abs(np.fft.rfft(x[ch] * np.hanning(40000))) ** 2
                f = np.fft.rfftfreq(40000, 1e-3)
                ctx.check(np.sum(S[(f > 145) & (f < 305)]) > 0.99 * np.sum(S), "level:band-limits", f"channel {ch}: power outside of the band")
            ctx.state(what, ch, power)
        if c > 1:
            ctx.check(abs(np.corrcoef(x)[0, 1]) < 0.1, "level:independent", "channels are correlated")
