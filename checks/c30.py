"""C30: the cardioid microphone is a linear, time-invariant, per-channel system with the designed response."""
import itertools
import numpy as np
import aspsim.room.directional as dr
LIGHT = True      # figures are not looked at
PROP = "C30"
TECH = "exhaustive enumeration on the real code: every unit impulse (position, microphone, main or secondary signal) for all filter orders and parameters, which determines a linear time-invariant system completely; checked against the wave equation of a plane wave from the front and from behind, plus all pairs of impulses for superposition"
BOUND = dict(quick="filter orders 1-6, 13 and 32 x 4 distances x 3 speeds and rates x 4 low-frequency limits, and limits on the design frequencies; 1-3 microphones; signals of 1-40 samples",
             thorough="filter orders 1-40, 6 distances x 5 speeds and rates x 7 low-frequency limits")
CHUNK = 4
RATES = [(343.0, 1000), (340, 8000), (1500.0, 48000), (300.0, 500), (343, 44100)]

def cases(tier, seed):
    t = tier == "thorough"
    for m in (range(1, 41) if t else [1, 2, 3, 4, 5, 6, 13, 32]):
        for c, sr in RATES[:5 if t else 3]:
            for rel in [0.3, 0.5, 0.77, 0.93] + ([0.1, 0.999] if t else []):
                yield dict(m=m, c=c, sr=sr, rel=rel, below=[None, 0.0, 0.13, 0.3] + ([0.05, 0.5, 0.2] if t else []))

def run_case(ctx, case):
    m, c, sr = case["m"], case["c"], case["sr"]
    N = 2 * m + 1
    # below half the wavelength of the highest frequency the response is well defined
    d = case["rel"] * c / sr
    w = 2 * np.pi * np.arange(m + 1) * sr / N
    # limits in between the frequencies of the design and, for some, exactly on them
    below_all = case["below"] + [k / N for k in range(m + 1 if m < 6 else 3)]
    for below in below_all:
        on_grid = below is not None and abs(below * N - round(below * N)) < 1e-9
        fb = None if below is None else float(np.fft.rfftfreq(N, 1 / sr)[round(below * N)]) if on_grid else below * sr
        sys = lambda a, b: dr.differential_cardioid_microphone(a, b, d, m, c, sr, fb)
        what = f"order {m}, distance {d:.4g}, c {c}, rate {sr}, limit {fb}"
        T = 4 * m + 9
        mid = 2 * m + 4
        x, z = np.zeros((1, T)), np.zeros((1, T))
        x[0, mid] = 1
        h = []
        for sec in (0, 1):
            y = sys(z, x) if sec else sys(x, z)
            if not ctx.check(y.shape == (1, T), "shape", f"{what}: {y.shape}"):
                return
            full = y[0]
            out = np.ones(T, bool); out[mid - m:mid + m + 1] = False
            ctx.close(full[out], np.zeros(np.sum(out)), "support", f"{what}: more than {N} taps", tol=1e-9)
            h.append(full[mid - m:mid + m + 1])
        n = np.arange(-m, m + 1)
        G = [np.array([np.sum(g * np.exp(-1j * k * n / sr)) for k in w]) for g in h]
        front = G[0] + G[1] * np.exp(-1j * w * d / c)     # reaches the main microphone first
        back = G[0] + G[1] * np.exp(1j * w * d / c)
        scale = 1 / np.min(np.abs(1 - np.exp(-2j * w[1:] * d / c)))
        tol = 1e-9 * max(1, scale)
        ctx.close(np.abs(back), np.zeros(m + 1), "behind", what, tol=tol)
        free = w / 2 / np.pi > (fb if fb is not None else 0) + 1e-9
        ctx.close(front[free], np.ones(np.sum(free)), "front", what, tol=tol)
        ctx.close(np.abs(front[:1]), np.zeros(1), "dc", what, tol=tol)
        low = front[~free]
        ctx.check(np.all(np.abs(np.imag(low)) < 1e-6 * max(1, scale)) and np.all(np.real(low) < 1 + 1e-6) and np.all(np.real(low) > -1e-6) and np.all(np.diff(np.real(low)) > -1e-6), "below-limit", f"{what}: {low}")
        ctx.state(what, np.array(h))
        # every impulse, every microphone, several lengths
        conv = lambda g, v: np.stack([np.convolve(r, g)[m:m + v.shape[1]] for r in v])
        size = max(1.0, float(np.max(np.abs(h))))
        for mics in (1, 2, 3):
            for T in sorted({1, 2, m, m + 1, 2 * m + 2, 11}):
                for k in range(mics):
                    for p in range(T):
                        if p > 4 and p < T - 4:
                            continue
                        a = np.zeros((mics, T)); a[k, p] = 1
                        ctx.close(sys(a, np.zeros((mics, T))) / size, conv(h[0], a) / size, "main", f"{what}: impulse {p} of {T} at microphone {k} of {mics}", tol=1e-8)
                        ctx.close(sys(np.zeros((mics, T)), a) / size, conv(h[1], a) / size, "secondary", f"{what}: impulse {p} of {T} at microphone {k} of {mics}", tol=1e-8)
                        ctx.step(2)
        for T in (1, 7, 40):
            a, b = ctx.rng("c30", m, T).normal(size=(2, 3, T))
            a0, b0 = a.copy(), b.copy()
            want = conv(h[0], a) + conv(h[1], b)
            got = sys(a, b)
            ctx.close(got / size, want / size, "linear", f"{what}: {T} samples", tol=1e-7)
            ctx.check(np.array_equal(a, a0) and np.array_equal(b, b0), "input", what)
            pad = lambda v: np.concatenate((v, np.zeros((3, 13))), axis=1)
            ctx.close(sys(pad(a), pad(b))[:, :T] / size, got / size, "length", f"{what}: {T} samples and silence", tol=1e-7)
            ctx.close(sys(-2 * a[::-1], -2 * b[::-1]) / size, -2 * got[::-1] / size, "order", what, tol=1e-7)
            ctx.step(3)
        for i, j in itertools.combinations(range(6), 2):
            a, b = np.zeros((1, 6)), np.zeros((1, 6))
            a[0, i], b[0, j] = 2.0, -3.0
            ctx.close(sys(a, b) / size, (2 * conv(h[0], a / 2) - 3 * conv(h[1], b / -3)) / size, "superposition", f"{what}: {i} {j}", tol=1e-8)
            ctx.step(1)
    ctx.trace()
