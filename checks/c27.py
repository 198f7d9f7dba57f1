"""C27: power, ratio and summary diagnostics equal their definition on the whole run."""
import itertools
import numpy as np
import aspsim.array as ar
import aspsim.diagnostics.core as core
import aspsim.diagnostics.diagnostics as dia
import aspsim.diagnostics.diagnosticscollection as dcol
import aspsim.diagnostics.diagnosticsummary as dsum
import aspsim.diagnostics.preprocessing as pp
from mc import simkit as sk
PROP = "C27"
TECH = "explicit-state exploration of the real simulator: all block, buffer and chunk lengths with sets of intervals, channel selections and smoothing lengths; every derived diagnostic and export compared with its definition evaluated on a reference model of the complete signals and states"
BOUND = dict(quick="block sizes 0-5 x 6 buffer/chunk pairs x 9 interval sets x 5 smoothing lengths, 40 samples, 3 channels, 13 derived diagnostics, save frequencies 1-9",
             thorough="block sizes 0-8 x 12 buffer/chunk pairs x 24 interval sets, 60 samples")
CHUNK = 4
IV = [None, [(0, 40)], [(0, 7)], [(3, 4)], [(5, 39)], [(0, 1), (2, 3), (7, 20)], [(0, 13), (13, 14), (20, 40)], [(1, 12), (30, 31)], [(11, 40)]]
MORE = [[(a, b)] for a in (0, 1, 6, 17) for b in (18, 33, 40)] + [[(0, a), (a + 1, 40)] for a in (1, 9, 20)]
SMOOTH = [1, 2, 3, 7, 30]
CHAN = [slice(None), slice(0, 1), [1], [2, 0], slice(1, None)]

def buffers(bs, t):
    out = [(b, c) for b, c in ((2 * bs, max(bs, 1)), (2 * bs + 1, bs + 1), (2 * bs + 3, max(2 * bs, 1)), (17, 11), (40, 40), (23, 7), (64, 9), (41, 13), (30, 5), (12, 90), (19, 19), (33, 8)) if b >= max(2, 2 * bs) and c >= max(1, bs)]
    return out[:12 if t else 6]

def cases(tier, seed):
    t = tier == "thorough"
    for bs in range(0, 9 if t else 6):
        for b, (buf, chunk) in enumerate(buffers(bs, t)):
            for i in range(len(IV) + (len(MORE) if t else 0)):
                yield dict(kind="signal", free=[2], ctrl=[1] if bs else [], mics=[3], L=3, bs=bs, buf=buf, chunk=chunk, tot=60 if t and not b else 40, iv=i, smooth=SMOOTH[(i + b + bs) % 5], feedback=bool(bs and b % 2))
            if bs:
                for f in range(1, 10):
                    yield dict(kind="state", free=[1], ctrl=[1], mics=[2], L=2, bs=bs, buf=buf, chunk=chunk, tot=40 if f % 2 else 37, f=f)
    for n in range(1, 12):
        yield dict(kind="pre", n=n)
    for first in itertools.product("ab", (5, 12)):
        yield dict(kind="file", first=list(first), n=5 if t else 4)

def herm(c):
    a = np.array([[2, 1 + 1j, 0.5], [0, -3, 1j], [0, 0, 0.25]]) * (1 + 0.3 * c) + np.diag([0, 1.5 * c, -c * c * 0.1])
    return a + a.conj().T

class Proc(sk.PlanProcessor):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.H = herm(0)
        self.z = np.array([1.0 + 1j, 2.0])
    def process(self, n):
        super().process(n)
        self.H[:] = herm(self.calls)
        self.z *= 0.9 + 0.2j

def z_at(c): return np.array([1.0 + 1j, 2.0]) * (0.9 + 0.2j) ** c
def counter_at(c): return np.array([1.0, 10.0]) * c
def obj0_at(c): return np.array([1.0, 2.0, 3.0]) * c

def make(sc, d, ctx):
    sc = dict(sc, plot_output="pdf", export_frequency=10 ** 9)
    setup = sk.make_setup(sc, d, base=ctx.dir)
    sim = setup.create_simulator()
    proc = None
    if sc["bs"]:
        proc = Proc(sim.sim_info, sim.arrays, sc["bs"], sc, d, watch=False)
        sim.add_processor(proc)
    return sim, proc

def within(tot, iv):
    m = np.zeros(tot, bool)
    for a, b in iv or [(0, tot)]:
        m[a:min(b, tot)] = True
    return m

def masked(v, m):
    return np.where(m, v, np.nan)

def run_case(ctx, case):
    globals()["run_" + case["kind"]](ctx, case)

def run_signal(ctx, sc):
    d = sk.make_data(sc, ctx.rng("c27", *sk.topo_label(sc)))
    sim, proc = make(sc, d, ctx)
    si, tot = sim.sim_info, sc["tot"]
    si.output_smoothing = sc["smooth"]
    ref = sk.Reference(sc, d)
    sig = {n: ref.get(n, 0, tot) for n in ["s0", "m0"] + (["l0"] if sc["bs"] else [])}
    iv = (IV + MORE)[sc["iv"]]
    keep = within(tot, iv)
    C = lambda: None if iv is None else core.IntervalCounter([tuple(x) for x in iv])
    want, exact = {}, {}
    what = f"block {sc['bs']}, buffer {sc['buf']}, chunk {sc['chunk']}, intervals {iv}, smoothing {sc['smooth']}"
    mid = 23
    for k, ch in enumerate(CHAN):
        x = sig["m0"][ch]
        sim.diag.add_diagnostic(f"pow{k}", dia.SignalPower("m0", si, [mid, tot], sig_channels=ch, save_at=C(), export_func="npz"))
        want[f"pow{k}"] = masked(np.mean(x ** 2, axis=0), keep)
        sim.diag.add_diagnostic(f"ratio{k}", dia.SignalPowerRatio("m0", "s0", si, [mid, tot], numerator_channels=ch, save_at=C(), export_func="npz"))
        sm = lambda p: np.convolve(p, np.ones(sc["smooth"]) / sc["smooth"])[:tot]
        want[f"ratio{k}"] = masked(sm(np.mean(x ** 2, axis=0)) / sm(np.mean(sig["s0"] ** 2, axis=0)), keep)
        # after a gap it is open which samples are smoothed
        dec = np.ones(tot, bool)
        for a, b in iv or []:
            if a > 0:
                dec[a:a + sc["smooth"] - 1] = False
        exact[f"ratio{k}"] = dec
    sim.diag.add_diagnostic("inv", dia.SignalPowerRatio("s0", "m0", si, [tot], denom_channels=[0, 2], numerator_channels=slice(1, 2), save_at=C(), export_func="npz"))
    want["inv"] = masked(sm(np.mean(sig["s0"][1:2] ** 2, axis=0)) / sm(np.mean(sig["m0"][[0, 2]] ** 2, axis=0)), keep)
    exact["inv"] = exact["ratio0"]
    # two channels of one signal, which are two different signals
    sim.diag.add_diagnostic("chan", dia.SignalPowerRatio("m0", "m0", si, [tot], numerator_channels=[0], denom_channels=slice(1, None), save_at=C(), export_func="npz"))
    want["chan"] = masked(sm(sig["m0"][0] ** 2) / sm(np.mean(sig["m0"][1:] ** 2, axis=0)), keep)
    exact["chan"] = exact["ratio0"]
    sim.diag.add_diagnostic("one", dia.SignalPowerRatio("s0", "s0", si, [tot], save_at=C(), export_func="npz"))
    want["one"] = masked(sm(np.mean(sig["s0"] ** 2, axis=0)) / sm(np.mean(sig["s0"] ** 2, axis=0)), keep)
    exact["one"] = exact["ratio0"]
    if sc["bs"]:
        sim.diag.add_diagnostic("lpow", dia.SignalPower("l0", si, [tot], save_at=C(), export_func="npz"))
        want["lpow"] = masked(np.mean(sig["l0"] ** 2, axis=0), keep)
    # summaries over every single interval
    once = {}
    grid = np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0]])
    for j, (a, b) in enumerate(iv or [(0, tot)]):
        b = min(b, tot)
        n = b - a
        x, s = sig["m0"][:, a:b], sig["s0"][:, a:b]
        sim.diag.add_diagnostic(f"mean{j}", dcol.SignalSummary("m0", si, (a, b)))
        once[f"mean{j}"] = np.sum(x) / n
        sim.diag.add_diagnostic(f"en{j}", dcol.SignalSummary("m0", si, (a, b), lambda v: np.sum(np.abs(v) ** 2)))
        once[f"en{j}"] = np.sum(x ** 2) / n
        sim.diag.add_diagnostic(f"spec{j}", dcol.SignalPowerSpectrum("m0", si, (a, b), 3, min(8, n)))
        once[f"spec{j}"] = np.mean([welch(c, si.samplerate, min(8, n)) for c in x], axis=0)
        sim.diag.add_diagnostic(f"spce{j}", dcol.SignalPowerSpectrum("m0", si, (a, b), 2, min(5, n), sig_channels=[2, 0]))
        once[f"spce{j}"] = np.mean([welch(c, si.samplerate, min(5, n)) for c in x[[2, 0]]], axis=0)
        sim.diag.add_diagnostic(f"sf{j}", dia.SoundfieldPower("m0", grid, (a, b), si, export_func="npz"))
        once[f"sf{j}"] = np.mean(x ** 2, axis=1)
        B = max(1, sc["bs"])
        sim.diag.add_diagnostic(f"psum{j}", dsum.SignalPowerSummary("m0", si, B, (a, b)))
        once[f"psum{j}"] = np.mean(x ** 2)
        sim.diag.add_diagnostic(f"pch{j}", dsum.SignalPowerSummary("m0", si, B, (a, b), sig_channels=[2, 0], export_func="npz"))
        once[f"pch{j}"] = np.mean(x[[2, 0]] ** 2)
        sim.diag.add_diagnostic(f"prs{j}", dsum.SignalPowerRatioSummary("m0", "s0", si, B, (a, b), denom_channels=slice(1, 2)))
        once[f"prs{j}"] = np.mean(x ** 2) / np.mean(s[1:2] ** 2)
        sim.diag.add_diagnostic(f"pro{j}", dsum.SignalPowerRatioSummary("m0", "m0", si, B, (a, b), numerator_channels=[2], denom_channels=[0, 1]))
        once[f"pro{j}"] = np.mean(x[2] ** 2) / np.mean(x[:2] ** 2)
    # a picture of four points with a drawn array
    if sc["iv"] < 3:
        a, b = (iv or [(0, tot)])[0]
        sim.diag.add_diagnostic("pic", dia.SoundfieldPower("s0", np.array([[1.0, 0, 0], [0, 0, 0]]), (a, b), si, plot_arrays=[ar.MicArray("drawn", np.array([[0.3, 0.2, 0]]))]))
    sim.run_simulation()
    for name, w in want.items():
        got = np.asarray(sim.diag[name].get_output())
        dec = exact.get(name, np.ones(tot, bool))
        if ctx.check(got.shape[-1] == tot and got.size == tot, "shape", f"{name}: {got.shape}"):
            got = got.reshape(tot)
            ctx.close(np.where(dec, got, 0), np.where(dec, w, 0), name.rstrip("0123456789"), what, tol=1e-7)
            ctx.check(np.array_equal(np.isnan(got), np.isnan(w)), "missing", f"{name} {what}")
            ctx.states_of(np.nan_to_num(got)[None])
    for name, w in once.items():
        ctx.close(np.squeeze(np.asarray(sim.diag[name].get_output())), np.squeeze(np.asarray(w)), name.rstrip("0123456789"), f"{name} {what}", tol=1e-7)
        ctx.state(name, np.asarray(w))
    ctx.step(tot)
    files = sk.read_folder(sim.folder_path)
    for name, w in want.items():
        for e in ([mid, tot] if name[:3] in ("pow", "rat") else [tot]):
            f = f"{name}_{e}.npz"
            if ctx.check(f in files, "export", f"{f} is missing"):
                dec = exact.get(name, np.ones(tot, bool))
                sel = ~np.isnan(w[:e])
                got = files[f][name]
                if ctx.check(got.size == np.sum(sel), "export:size", f"{f} {what}: {got.shape}"):
                    ok = dec[:e][sel]
                    ctx.close(got.reshape(-1)[ok], w[:e][sel][ok], "export:value", f"{f} {what}", tol=1e-7)
    for name, w in once.items():
        a, b = (iv or [(0, tot)])[int(name.lstrip("abcdefghijklmnopqrstuvwxyz"))]
        b = min(b, tot)
        kind = name.rstrip("0123456789")
        f = f"{name}_{b}" + (".json" if kind in ("mean", "en", "psum", "prs", "pro") else ".npz" if kind in ("sf", "pch") else ".pdf")
        if not ctx.check(f in files, "export", f"{f} is missing ({what})"):
            continue
        if f.endswith(".json"):
            ctx.close(np.array(files[f][name]), np.array(float(w)), "export:summary", f"{f} {what}", tol=1e-7)
        elif f.endswith(".npz"):
            ctx.close(files[f][name].reshape(-1), np.reshape(w, -1), "export:value", f"{f} {what}", tol=1e-7)
        else:
            lines = files[f]["lines"]
            if ctx.check(len(lines) == 1, "export:lines", f"{f}: {len(lines)}"):
                ctx.close(lines[0][2], np.reshape(w, -1), "export:line", f"{f} {what}", tol=1e-7)
    if sc["iv"] < 3:
        b = min((iv or [(0, tot)])[0][1], tot)
        f = f"pic_{b}.pdf"
        if ctx.check(f in files and len(files[f]["images"]) >= 1, "picture", f"{f} is missing"):
            p = np.mean(sig["s0"][:, a:b] ** 2, axis=1)
            ctx.close(np.squeeze(np.asarray(files[f]["images"][0][0], float)), p[::-1], "picture:value", what, tol=1e-7)
            ctx.check(any(np.allclose(l[1], [0.3]) and np.allclose(l[2], [0.2]) for l in files[f]["lines"]), "picture:array", what)
    ctx.trace()

def welch(x, sr, n):
    """averaged Hann-windowed periodograms with half overlap, mean removed, scaled as a spectrum"""
    w = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n) if n > 1 else np.ones(1)
    hop = n - n // 2
    out = []
    for a in range(0, len(x) - n + 1, hop):
        s = (x[a:a + n] - np.mean(x[a:a + n])) * w
        p = np.abs(np.fft.rfft(s)) ** 2 / np.sum(w) ** 2
        p[1:(-1 if n % 2 == 0 else None)] *= 2
        out.append(p)
    return np.mean(out, axis=0)

def run_state(ctx, sc):
    d = sk.make_data(sc, ctx.rng("c27", *sk.topo_label(sc)))
    sim, proc = make(sc, d, ctx)
    si, tot, B, f = sim.sim_info, sc["tot"], sc["bs"], sc["f"]
    xs = list(range(f, tot + 1, f))
    calls = [X // B for X in xs]
    what = f"block {B}, buffer {sc['buf']}, chunk {sc['chunk']}, every {f} of {tot}"
    dist = lambda a, b: np.sum(np.abs(a[:2] - b) ** 2)
    size = lambda a: np.max(np.abs(a))
    ev = lambda c: np.linalg.eigvalsh(herm(c))
    E = [f * 2, tot] if f * 2 < tot else [tot]
    A, want = sim.diag.add_diagnostic, {}
    A("sp", dia.StatePower("z", si, E, f, export_func="npz"));                      want["sp"] = [np.mean(np.abs(z_at(c)) ** 2) for c in calls]
    A("spk", dia.StatePower("obj['k'][0]", si, export_at=E, save_frequency=f));      want["spk"] = [np.mean(obj0_at(c) ** 2) for c in calls]
    A("cmp", dia.StateComparison(dist, "obj['k'][0]", "counter", si, E, f, export_func="npz")); want["cmp"] = [dist(obj0_at(c), counter_at(c)) for c in calls]
    A("sum", dia.StateSummary(size, "H", si, E, save_frequency=f, export_func="npz")); want["sum"] = [size(herm(c)) for c in calls]
    for lo, hi in ((0, 2), (0, 0), (1, 2), (2, 2)):
        A(f"ev{lo}{hi}", dcol.EigenvaluesOverTime("H", (lo, hi), si, E, f, export_func="npz"))
        want[f"ev{lo}{hi}"] = np.array([ev(c)[lo:hi + 1] for c in calls]).T.reshape(hi - lo + 1, -1)
    A("ea", dcol.EigenvaluesOverTime("H", [0, 1], si, E, f, abs_value=True, export_func="npz"))
    want["ea"] = np.array([np.abs(ev(c)[:2]) for c in calls]).T.reshape(2, -1)
    A("ei", dcol.Eigenvalues("H", si, f, export_func="npz"))
    A("eb", dcol.Eigenvalues("H", si, f, export_func="npz", abs_value=True))
    A("df", dia.RecordFilterDifference("obj['k'][0]", "obj['k'][1]", si, f, export_func="npz"))
    sim.run_simulation()
    ctx.step(tot)
    for name, w in want.items():
        w = np.atleast_2d(np.array(w, float))
        got = np.atleast_2d(np.asarray(sim.diag[name].get_output()))
        if ctx.check(got.shape[0] == w.shape[0] and got.shape[1] >= len(xs), "state:shape", f"{name} {what}: {got.shape}"):
            ctx.close(got[:, :len(xs)], w, "state:" + name.rstrip("0123456789"), f"{name} {what}", tol=1e-7)
            ctx.check(np.all(np.isnan(got[:, len(xs):])), "state:extra", f"{name} {what}")
            ctx.check(np.array_equal(np.asarray(sim.diag[name].time_indices)[:len(xs)], np.array(xs) - 1), "state:time", f"{name} {what}: {sim.diag[name].time_indices}")
    files = sk.read_folder(sim.folder_path)
    for name, w in want.items():
        w = np.atleast_2d(np.array(w, float))
        for e in E:
            fn = f"{name}_{e}." + ("pdf" if name == "spk" else "npz")
            if ctx.check(fn in files, "export", f"{fn} is missing ({what})") and fn.endswith("npz"):
                n = len([x for x in xs if x <= e])
                ctx.close(np.atleast_2d(files[fn][name]), w[:, :n], "export:value", f"{fn} {what}", tol=1e-7)
    for X, c in zip(xs, calls):
        for name, w in (("ei", ev(c)), ("eb", np.abs(ev(c))), ("df", obj0_at(c) - (7.0 + c))):
            fn = f"{name}_{X}.npz"
            if ctx.check(fn in files, "export", f"{fn} is missing ({what})"):
                ctx.close(np.asarray(files[fn][name]).reshape(-1), w, "export:snapshot", f"{fn} {what}", tol=1e-7)
    ctx.state(what, *[np.array(w, float) for w in want.values()])
    ctx.trace()

def run_pre(ctx, case):
    """the preprocessing functions on their own"""
    n = case["n"]
    rng = ctx.rng("pre", n)
    for ch in (1, 2, 3):
        for T in (0, 1, 2, 5, 12, 30):
            x = rng.normal(size=(ch, T))
            x0 = x.copy()
            ctx.step(T)
            want = np.array([[np.sum(x[c, max(0, t - n + 1):t + 1]) / n for t in range(T)] for c in range(ch)]).reshape(ch, T)
            ctx.close(pp.smooth(n)(x), want, "smooth", f"{ch} x {T} over {n}")
            a = np.abs(x) + 0.1
            ctx.close(pp.db_power(a), 10 * np.log10(a), "db", "power")
            ctx.close(pp.db_amplitude(a), 20 * np.log10(a), "db", "amplitude")
            ctx.close(pp.natural_log(a), np.log(a), "log", "")
            ctx.close(pp.linear(x), x, "linear", "")
            ctx.close(pp.clip(-n / 10, 0.5)(x), np.minimum(np.maximum(x, -n / 10), 0.5), "clip", "")
            ctx.check(np.array_equal(x, x0), "pre:input", "the input was changed")
            ctx.state(n, x)
    ctx.trace()

def run_file(ctx, case):
    """all sequences of additions to the summary files: each file has the last value of every name"""
    import json
    ops = list(itertools.product("ab", (5, 12)))
    for k in range(case["n"]):
        for rest in itertools.product(ops, repeat=k):
            seq = [tuple(case["first"])] + list(rest)
            d = ctx.dir / ("f" + "".join(f"{n}{t}" for n, t in seq))
            d.mkdir()
            want = {}
            for i, (name, t) in enumerate(seq):
                v = {"proc": 1.5 * i, "other": -float(i)}
                dsum.add_to_summary(name, v, t, d)
                want.setdefault(f"summary_{t}.json", {})[name] = v
                ctx.step()
            got = {f.name: json.loads(f.read_text()) for f in d.iterdir()}
            ctx.check(got == want, "file", f"{seq}: {got}")
            ctx.state(seq); ctx.trace()
    v = ctx.rng("mean", *case["first"]).normal(size=(2, 9000))
    v[:, 6500:] = np.nan
    for t in (3000, 3001, 5000, 6500, 7000):
        got = dsum.mean_near_time_idx(dict(x=v, y=v[0]), t)
        ctx.close(np.array([got["x"], got["y"]]), np.array([np.mean(v[:, t - 3000:min(t, 6500)]), np.mean(v[0, t - 3000:min(t, 6500)])]), "file:mean", f"until {t}")
        ctx.step()
