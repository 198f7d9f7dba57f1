"""C28: audio files are loaded faithfully and exported audio is the recorded signal."""
import math, pathlib
import numpy as np
import scipy.signal as spsig
import soundfile as sf
import aspsim.diagnostics.core as core
import aspsim.diagnostics.diagnostics as dia
import aspsim.signal.sources as src
from mc import simkit as sk
PROP = "C28"
TECH = "exhaustive enumeration on the real code: all channel counts, lengths, requested channels, file and target rates of small audio files; all channel counts, lengths, chunk lengths and export histories of simulations exporting audio; compared with the written samples and the recorded signal"
BOUND = dict(quick="files of 1-4 channels x 6 lengths x 5 file rates x 7 target rates x all channel requests, 2 sample formats; 1-4 channels x 5 sample rates x 5 chunkings x 4 interval sets of exported audio with up to 5 exports; 4 signal kinds",
             thorough="files of 1-6 channels x 16 lengths x 9 file rates x 14 target rates; 9 chunkings, 1-6 channels")
ASSUMPTIONS = ["rate conversion is the polyphase resampling of scipy, applied to one channel at a time; the file format library soundfile is trusted"]
CHUNK = 2
IV = [None, [(0, 7), (20, 47)], [(31, 60)], [(0, 60)]]

def cases(tier, seed):
    t = tier == "thorough"
    for ch in range(1, 7 if t else 5):
        for sr in ([8000, 16000, 44100, 48000, 1000, 900, 11025, 22050, 96000] if t else [8000, 16000, 44100, 1000, 900]):
            yield dict(kind="load", ch=ch, sr=sr, n=list(range(1, 14)) + [64, 101, 300] if t else [1, 2, 7, 64, 101, 300],
                       to=[None, sr, sr // 2, sr // 4, sr * 2 // 3, sr * 3 // 4, sr - 100] + ([sr * 4 // 5, sr // 5, sr // 10, sr * 9 // 10, sr * 7 // 8, sr - 50, sr // 3] if t else []))
    for ch in range(1, 7 if t else 5):
        for sr in (20, 50, 100, 1000, 16000):
            for bs, buf, chunk in [(0, 8, 5), (1, 12, 3), (3, 9, 7), (4, 8, 4), (2, 60, 60)] + ([(5, 13, 6), (1, 2, 1), (7, 30, 11), (0, 2, 1)] if t else []):
                for iv in range(len(IV)):
                    yield dict(kind="export", free=[ch], ctrl=[1] if bs else [], mics=[max(1, ch - 1)], L=2, sr=sr, bs=bs, buf=buf, chunk=chunk, tot=60, iv=iv)
    for ch in (1, 2, 3):
        yield dict(kind="quiet", ch=ch)

def run_case(ctx, case):
    globals()["run_" + case["kind"]](ctx, case)

def run_load(ctx, case):
    ch, sr = case["ch"], case["sr"]
    for n in case["n"]:
        x = ctx.rng("c28", ch, n).uniform(-0.9, 0.9, size=(ch, n))
        for fmt, tol in (("DOUBLE", 1e-15), ("PCM_16", 1.1 / 2 ** 15)):
            f = ctx.dir / f"{ch}_{n}_{sr}_{fmt}.wav"
            sf.write(str(f), x.T, sr, subtype=fmt)
            for to in case["to"]:
                for k in [None] + list(range(1, ch + 2)):
                    for name in (f, str(f)):
                        what = f"{ch} channels of {n} at {sr} Hz ({fmt}), first {k} at {to} Hz"
                        got = src.load_audio_file(name if k != 1 else str(f), to, k)
                        want = x[:k]
                        if to not in (None, sr):
                            g = math.gcd(to, sr)
                            want = np.stack([spsig.resample_poly(c, to // g, sr // g) for c in want])
                        ctx.step(1)
                        if ctx.check(got.shape == want.shape, "load:shape", f"{what}: {got.shape} instead of {want.shape}"):
                            ctx.close(got, want, "load:value", what, tol=tol * 4 if fmt == "PCM_16" else 1e-9)
                        if name is f and (to is not None or k is not None):
                            break
            # a loaded file can be played
            a = src.load_audio_file(f)
            s = src.Sequence(a, 2.0)
            ctx.close(s.get_samples(2 * n + 1), 2 * np.tile(x, 3)[:, :2 * n + 1], "load:play", f"{ch} channels of {n}", tol=tol * 4 if fmt == "PCM_16" else 1e-9)
            f.unlink()
        ctx.state(x)
    ctx.trace()

def faded(v, sr):
    """full scale, with a linear fade in and out over at most a fifth of a second and a tenth of the signal"""
    n = v.shape[-1]
    p = np.max(np.abs(v)) if v.size else 0
    out = v / p if p > 0 else np.zeros(v.shape)
    r = min(int(0.2 * sr), int(0.1 * n))
    if r > 0:
        up = np.arange(r) / (r - 1) if r > 1 else np.zeros(1)
        out[:, :r] = out[:, :r] * up
        out[:, n - r:] = out[:, n - r:] * (1 - up)
    return out

def run_export(ctx, sc):
    sc = dict(sc, plot_output="pdf")
    d = sk.make_data(sc, ctx.rng("c28", *sk.topo_label(sc)))
    setup = sk.make_setup(sc, d, base=ctx.dir)
    sim = setup.create_simulator()
    if sc["bs"]:
        sim.add_processor(sk.PlanProcessor(sim.sim_info, sim.arrays, sc["bs"], sc, d, watch=False))
    si, tot = sim.sim_info, sc["tot"]
    ref = sk.Reference(sc, d)
    names = [f"s0", "m0"] + (["l0"] if sc["bs"] else [])
    nch = dict(s0=sc["free"][0], m0=sc["mics"][0], l0=1)
    sig = {n: ref.get(n, 0, tot) for n in names}
    iv = IV[sc["iv"]]
    keep = np.zeros(tot, bool)
    for a, b in iv or [(0, tot)]:
        keep[a:b] = True
    ex = [11, 30, 47, 48, 60]
    for n in names:
        for kind in ("list", "every"):
            c = None if iv is None else core.IntervalCounter([tuple(x) for x in iv])
            sim.diag.add_diagnostic(f"au{n}{kind}", dia.RecordSignal(n, si, ex if kind == "list" else 20, save_at=c, num_channels=nch[n], export_func="wav"))
    twice = lambda v: -2.5 * v[:, ::-1]
    sim.diag.add_diagnostic("pre", dia.RecordSignal("m0", si, [tot], num_channels=nch["m0"], export_func=["wav", "npz"], export_kwargs=[{}, {}], preprocess=[[twice], []]))
    sim.run_simulation()
    ctx.step(tot)
    exp = {}
    for n in names:
        for kind, at in (("list", ex), ("every", [20, 40, 60])):
            for e in at:
                exp[f"au{n}{kind}", e] = sig[n][:, :e][:, keep[:e]]
    exp["pre", tot] = twice(sig["m0"])
    files = {p.name: p for p in pathlib.Path(sim.folder_path).glob("*.wav")}
    ctx.check(len(files) == len(exp), "export:count", f"{sorted(files)} for {sorted(exp)}")
    for (name, e), v in exp.items():
        mine = [p for f, p in files.items() if f.startswith(name + "_") and f.endswith(f"_{e}.wav")]
        if not ctx.check(len(mine) == 1, "export:missing", f"{name} at {e}: {sorted(files)}"):
            continue
        got, sr = sf.read(str(mine[0]), always_2d=True)
        got = got.T
        what = f"{name} at {e}, {sc['sr']} Hz, intervals {iv}, block {sc['bs']}, buffer {sc['buf']}, chunk {sc['chunk']}"
        ctx.check(sr == sc["sr"], "export:rate", f"{what}: {sr}")
        if ctx.check(got.shape == v.shape, "export:shape", f"{what}: {got.shape} instead of {v.shape}"):
            ctx.close(got, faded(v, sc["sr"]), "export:value", what, tol=2.5 / 2 ** 15)
        ctx.state(what, got)
    # writing a file does not change what was recorded
    for n in names:
        got = np.asarray(sim.diag[f"au{n}list"].get_output())
        ctx.close(np.where(np.isnan(got), 0, got), sig[n] * keep, "export:record", f"{n}")
        ctx.check(np.array_equal(~np.isnan(got[0]), keep), "export:gaps", n)
    ctx.close(np.load(pathlib.Path(sim.folder_path) / f"pre_{tot}.npz")["pre"], sig["m0"], "export:other", "npz next to wav")
    ctx.trace()

def run_quiet(ctx, case):
    """silent channels, silent signals and exports before anything is recorded"""
    ch = case["ch"]
    for chunk in (1, 3, 7, 20):
        for zero in [list(range(ch)), [0], []]:
            sc = dict(free=[ch], ctrl=[], mics=[1], L=1, sr=100, bs=0, buf=8, chunk=chunk, tot=20, plot_output="pdf")
            d = sk.make_data(sc, ctx.rng("c28q", ch))
            for k in zero:
                d["x"]["s0"][k] = 0.0
            for iv in (None, [(11, 20)]):
                sim = sk.make_setup(sc, d, base=ctx.dir).create_simulator()
                c = None if iv is None else core.IntervalCounter(iv)
                sim.diag.add_diagnostic("q", dia.RecordSignal("s0", sim.sim_info, [5, 13, 20], save_at=c, num_channels=ch, export_func="wav"))
                sim.run_simulation()
                ctx.step(20)
                for e in (5, 13, 20):
                    v = d["x"]["s0"][:, :20][:, (iv[0][0] if iv else 0):e]
                    got = [sf.read(str(p), always_2d=True)[0].T for p in pathlib.Path(sim.folder_path).glob(f"q_*_{e}.wav")]
                    what = f"silent channels {zero} of {ch}, intervals {iv}, export at {e}"
                    if ctx.check(len(got) == 1, "quiet:missing", what) and ctx.check(got[0].size == v.size, "quiet:shape", f"{what}: {got[0].shape}"):
                        ctx.close(got[0].reshape(v.shape), faded(v, 100), "quiet:value", what, tol=2.5 / 2 ** 15)
                    ctx.state(what, v)
    ctx.trace()
