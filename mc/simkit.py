"""Scenario builder and reference model of the simulated signal flow (independent of the implementation)."""
import numpy as np
from aspsim.simulator import SimulatorSetup
from aspsim.processor import AudioProcessor
import aspsim.diagnostics.diagnostics as dia

SRC_LEN = 4000

class TableSource:
    """A free source whose stream is a fixed table; logs how it was asked."""
    def __init__(self, table):
        self.table = table
        self.num_channels = table.shape[0]
        self.metadata = {"type": "TableSource"}
        self.pos = 0
        self.calls = []
    def get_samples(self, num_samples):
        out = self.table[:, self.pos:self.pos + num_samples].copy()
        self.calls.append(int(num_samples))
        self.pos += int(num_samples)
        return out

def names(sc):
    free = {f"s{i}": n for i, n in enumerate(sc.get("free", []))}
    ctrl = {f"l{i}": n for i, n in enumerate(sc.get("ctrl", []))}
    mics = {f"m{i}": n for i, n in enumerate(sc.get("mics", []))}
    return free, ctrl, mics

def make_data(sc, rng):
    """taps, source tables and the processor's write plan: a function of the topology only"""
    free, ctrl, mics = names(sc)
    L = sc.get("L", 3)
    d = dict(h={}, x={}, plan={}, L={})
    for si, (s, n) in enumerate({**free, **ctrl}.items()):
        d["h"][s] = {}
        for mi, (m, k) in enumerate(mics.items()):
            ln = L if sc.get("sameL") else max(1, L + (si - mi))
            d["L"][s, m] = ln
            d["h"][s][m] = shape_paths(rng.normal(size=(n, k, ln)), sc.get("pathkind"), si + 2 * mi)
    if sc.get("pathkind") == "shared":
        # one and the same array object wherever the shape allows it
        by_shape = {}
        for s in d["h"]:
            for m in d["h"][s]:
                d["h"][s][m] = by_shape.setdefault(d["h"][s][m].shape, d["h"][s][m])
    for s, n in free.items():
        d["x"][s] = shape_signal(rng.normal(size=(n, SRC_LEN)), sc.get("xkind"))
    for s, n in ctrl.items():
        d["plan"][s] = rng.normal(size=(n, 600))
    return d

PATHKINDS = ["same", "shared", "delta", "zero", "sparse", "int", "f32", "fortran", "tiny", "huge", "tailzero", "samechan"]
def shape_paths(h, kind, k):
    """special contents of the impulse responses h of the k-th pair"""
    n, c, L = h.shape
    if kind == "same":            # equal contents for all pairs of equal shape
        return np.random.default_rng(5).normal(size=h.shape)
    if kind == "samechan":        # all channel pairs have one response
        return np.tile(h[:1, :1], (n, c, 1))
    if kind == "delta":           # a pure delay, different for every pair
        o = np.zeros_like(h); o[:, :, k % L] = 1.0; return o
    if kind == "zero":            # every second pair is silent
        return h * (k % 2)
    if kind == "sparse":          # a few non-zero taps at the end
        o = np.zeros_like(h); o[:, :, -1] = h[:, :, -1]; o[:, :, L // 2] = 0.5; return o
    if kind == "tailzero":
        o = h.copy(); o[:, :, L // 2 + 1:] = 0; return o
    if kind == "int":
        return np.round(3 * h).astype(int)
    if kind == "f32":
        return h.astype(np.float32)
    if kind == "fortran":
        return np.asfortranarray(h)[::1]
    if kind == "tiny":
        return h * 1e-9
    if kind == "huge":
        return h * 1e9
    return h

XKINDS = ["gaps", "const", "int", "late", "repeat", "negzero"]
def shape_signal(x, kind):
    """special contents of source streams"""
    t = np.arange(x.shape[1])
    if kind == "gaps":            # silent for several samples at a time
        return x * ((t // 5) % 2)
    if kind == "const":
        return np.ones_like(x)
    if kind == "int":
        return np.round(4 * x)
    if kind == "late":            # silent at first
        return x * (t > 17)
    if kind == "repeat":          # the same block over and over, in all channels
        return np.tile(x[:1, :4], (x.shape[0], x.shape[1] // 4))
    if kind == "negzero":
        return np.where(t % 3 == 0, x, -0.0)
    return x

def base_config(setup, sc):
    si = setup.sim_info
    si.tot_samples = sc["tot"]; si.sim_buffer = sc["buf"]; si.sim_chunk_size = sc["chunk"]
    si.start_sources_before_0 = bool(sc.get("start0", False))
    si.save_source_contributions = bool(sc.get("contrib", False))
    si.array_update_freq = sc.get("auf", 1)
    si.samplerate = sc.get("sr", 1000)
    si.reverb = sc.get("reverb", "none")
    si.export_frequency = sc.get("export_frequency", 10 ** 9)
    si.plot_output = sc.get("plot_output", "none")
    si.output_smoothing = sc.get("smooth", 1)
    si.auto_save_load = bool(sc.get("autosave", False))
    si.max_room_ir_length = sc.get("irlen", 8)
    si.rt60 = sc.get("rt60", 0.0)
    si.extra_delay = sc.get("xd", 2)
    si.room_size = [4.0, 4.0, 3.0]; si.room_center = [0.0, 0.0, 0.0]
    return si

def positions(n, k):
    """distinct positions of an array with n elements"""
    return np.array([[0.1 + 0.17 * i + 0.31 * k, -0.2 + 0.11 * i * (k + 1), 0.05 * k] for i in range(n)]).reshape(n, 3)

def make_setup(sc, d, base=None, session=None, rng=None):
    free, ctrl, mics = names(sc)
    setup = SimulatorSetup(base, session, rng=rng)
    base_config(setup, sc)
    k = 0
    order = sc.get("order", "fcm")
    if not isinstance(order, str):          # a list of array names
        for s in order:
            if s in free: setup.add_free_source(s, positions(free[s], k), TableSource(d["x"][s]))
            if s in ctrl: setup.add_controllable_source(s, positions(ctrl[s], k))
            if s in mics: setup.add_mics(s, positions(mics[s], k))
            k += 1
        order = ""
    for o in order:
        if o == "f":
            for s, n in free.items():
                setup.add_free_source(s, positions(n, k), TableSource(d["x"][s])); k += 1
        if o == "c":
            for s, n in ctrl.items():
                setup.add_controllable_source(s, positions(n, k)); k += 1
        if o == "m":
            for s, n in mics.items():
                setup.add_mics(s, positions(n, k)); k += 1
    if sc.get("paths", True):
        for s in d["h"]:
            for m in d["h"][s]:
                setup.set_path(s, m, d["h"][s][m])
    return setup

class PlanProcessor(AudioProcessor):
    """Writes a planned (and optionally mic-dependent) block at every call and records everything it is shown."""
    def __init__(self, sim_info, arrays, block_size, sc, d, watch=True):
        super().__init__(sim_info, arrays, block_size)
        self.name = "plan"
        self.sc, self.d, self.watch = sc, d, watch
        self.calls = 0
        self.seen = []
        self.shown = []
        self.free, self.ctrl, self.mics = names(sc)
        self.counter = np.zeros(2)
        self.obj = {"k": [np.zeros(3), 7.0]}
        self.mat = np.zeros((2, 3))
        self.tens = np.zeros((2, 3, 4))
        self.irs = [np.zeros(3), np.zeros((2, 2))]
        self.book = {"a": np.zeros(2), "deep": {"b": [np.zeros(1), (np.zeros(2), 4)]}}
        self.thing = Thing()
        self.slow, self.faint, self.big = np.ones(3), np.zeros(2), np.full(2, 1e12)
        self.cplx, self.ints, self.flag, self.text, self.grow, self.maybe = np.zeros(2, dtype=complex), np.zeros(2, dtype=int), False, "call0", [], None
        self.swap = np.zeros(1)
    def process(self, num_samples):
        self.shown.append(num_samples)
        self.calls += 1
        idx = self.sig.idx
        if self.watch:
            names = list(self.free) + list(self.ctrl) + list(self.mics)
            if self.watch == "contrib":
                names += [f"{s}~{m}" for s in {**self.free, **self.ctrl} for m in self.mics]
            self.seen.append({n: np.array(self.sig[n][:, :idx]) for n in names})
        for l, n in self.ctrl.items():
            mics = {m: self.sig[m][:, idx - num_samples:idx] for m in self.mics}
            blk = plan_block(self.sc, self.d, l, self.calls, num_samples, mics)
            if self.sc.get("mode", "add") == "add":
                self.sig[l][:, idx:idx + num_samples] += blk
            else:
                self.sig[l][:, idx:idx + num_samples] = blk
        # state that changes at every call, in place (so that snapshots must be copies)
        self.counter += np.array([1.0, 10.0])
        self.obj["k"][0] += np.array([1.0, 2.0, 3.0])
        self.obj["k"][1] += 1.0
        self.mat += np.arange(6).reshape(2, 3)
        self.tens += np.arange(24).reshape(2, 3, 4)
        for x in (self.irs[0], self.irs[1], self.book["a"], self.book["deep"]["b"][0], self.book["deep"]["b"][1][0], self.thing.w):
            x += 1.0
        self.thing.k += 1
        # changes that are small in relation to the value or absolutely, and values of other types
        self.slow += 1e-7; self.faint += 1e-12; self.big += 1.0
        self.cplx += 1j; self.ints += 1; self.flag = not self.flag; self.text = f"call{self.calls}"; self.grow.append(self.calls)
        self.maybe = None if self.calls % 3 == 0 else np.array([self.calls])
        self.swap = np.full(1 + self.calls % 3, float(self.calls))      # a new object, sometimes of another shape

class Thing:
    """an object with changing attributes, as processors keep"""
    def __init__(self):
        self.w, self.k = np.zeros(2), 0

def plan_block(sc, d, l, call, B, mics):
    plan = d["plan"][l]
    start = (call - 1) * B
    blk = plan[:, start:start + B].copy()
    if sc.get("feedback"):
        for i, (m, v) in enumerate(mics.items()):
            blk += 0.3 / (i + 1) * v.sum(axis=0)[None, :] * np.arange(1, plan.shape[0] + 1)[:, None] * 0.2
    return blk

def build(sc, d, **kw):
    setup = make_setup(sc, d, **kw)
    sim = setup.create_simulator()
    proc = None
    if sc.get("bs"):
        proc = PlanProcessor(sim.sim_info, sim.arrays, sc["bs"], sc, d, watch=sc.get("watch", False))
        sim.add_processor(proc)
    return setup, sim, proc

def record_all(sim, sc, **kw):
    free, ctrl, mics = names(sc)
    for n, c in {**free, **ctrl, **mics}.items():
        sim.diag.add_diagnostic("rec_" + n, dia.RecordSignal(n, sim.sim_info, num_channels=c, **kw))
    if sc.get("contrib"):
        for s in {**free, **ctrl}:
            for m, c in mics.items():
                sim.diag.add_diagnostic(f"rec_{s}~{m}", dia.RecordSignal(f"{s}~{m}", sim.sim_info, num_channels=c, **kw))

class Reference:
    """Signals as functions of global time g in [g0, tot+ahead): g0 = -(buf-1) with pre-roll, else 0; zero before g0."""
    def __init__(self, sc, d, ahead=0):
        free, ctrl, mics = names(sc)
        buf, tot, B = sc["buf"], sc["tot"], sc.get("bs") or 0
        g0 = -(buf - 1) if sc.get("start0") else 0
        self.g0 = g0
        G = tot + max(B, 1) + ahead
        self.G = G
        off = -g0
        sig = {s: d["x"][s][:, :G + off].copy() for s in free}
        sig.update({l: np.zeros((n, G + off + 2 * B + 2)) for l, n in ctrl.items()})
        for m, n in mics.items():
            sig[m] = np.zeros((n, G + off))
        con = {f"{s}~{m}": np.zeros((n, G + off)) for s in {**free, **ctrl} for m, n in mics.items()}
        calls = 0
        # free sources at once, loudspeakers sample by sample (they depend on what is written)
        for s in free:
            for m in mics:
                con[f"{s}~{m}"][:] = conv(sig[s], d["h"][s][m], G + off)
        for m in mics:
            for s in free:
                sig[m] += con[f"{s}~{m}"]
        if B:
            for g in range(0, G):
                t = g + off
                for l in ctrl:
                    for m in mics:
                        h = d["h"][l][m]
                        v = np.zeros(mics[m])
                        for k in range(min(h.shape[2], g + 1)):
                            v += sig[l][:, t - k] @ h[:, :, k]
                        con[f"{l}~{m}"][:, t] = v
                        sig[m][:, t] += v
                if g % B == B - 1:
                    calls += 1
                    for l in ctrl:
                        blk = plan_block(sc, d, l, calls, B, {m: sig[m][:, t - B + 1:t + 1] for m in mics})
                        sig[l][:, t + 1:t + 1 + B] += blk
        self.sig, self.con, self.off, self.calls = sig, con, off, calls
    def get(self, name, a, b):
        """samples a <= g < b, zero where the simulation had not started"""
        src = self.sig[name] if name in self.sig else self.con[name]
        out = np.zeros((src.shape[0], b - a))
        lo = max(a, self.g0)
        if b > lo:
            out[:, lo - a:] = src[:, lo + self.off:b + self.off]
        return out

def conv(x, h, n):
    out = np.zeros((h.shape[1], n))
    for i in range(h.shape[0]):
        for j in range(h.shape[1]):
            out[j] += np.convolve(x[i, :n], h[i, j])[:n]
    return out

def topo_label(sc):
    return [sc.get("free"), sc.get("ctrl"), sc.get("mics"), sc.get("L"), sc.get("bs"), sc.get("feedback"), sc.get("sameL")]


def read_folder(folder):
    """every file below a folder, with its content: npz arrays, json values, wav samples, drawn lines of figures"""
    import json
    import soundfile as sf
    from mc import boot
    figs = {r["path"]: r for r in boot.FIGS}
    out = {}
    for f in sorted(folder.rglob("*")):
        if f.is_dir():
            continue
        rel = str(f.relative_to(folder))
        if f.suffix == ".npz":
            with np.load(f) as z:
                out[rel] = {k: np.array(z[k]) for k in z.files}
        elif f.suffix == ".json":
            out[rel] = json.loads(f.read_text())
        elif f.suffix == ".wav":
            data, sr = sf.read(str(f), always_2d=True)
            out[rel] = {"data": data.T, "sr": sr}
        elif str(f) in figs:
            out[rel] = {"lines": figs[str(f)]["lines"], "images": figs[str(f)]["images"], "text": figs[str(f)]["text"]}
        else:
            out[rel] = f.read_bytes()
    return out

def same(a, b, tol=1e-9):
    """deep equality with rounding for numbers"""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fiubc" and b.dtype.kind in "fiubc":
            return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
        return bool(np.all(a == b))
    if isinstance(a, float) and isinstance(b, (float, int)) and not isinstance(b, bool):
        return a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= tol * max(1.0, abs(b))
    return a == b


_light = {}
def light(yaml_c=False):
    """for checks which do not look at figures: pictures are drawn on an object that accepts everything (files are still written); yaml_c: libyaml instead of the Python implementation"""
    import matplotlib.pyplot as plt
    from unittest import mock
    if not _light:
        _light.update(axes=mock.MagicMock(), real=plt.subplots)
    plt.subplots = lambda *a, **k: (plt.figure(), _light["axes"])
    _light["axes"].reset_mock()
    if yaml_c:
        import yaml
        if hasattr(yaml, "CSafeLoader"):
            yaml.safe_load = lambda stream: yaml.load(stream, Loader=yaml.CSafeLoader)

def unlight():
    import matplotlib.pyplot as plt
    plt.subplots = _light["real"]
