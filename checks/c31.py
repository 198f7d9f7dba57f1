"""C31: signals that a processor creates behave like all other signals."""
import itertools
import numpy as np
import aspsim.diagnostics.core as core
import aspsim.diagnostics.diagnostics as dia
from aspsim.processor import AudioProcessor
from mc import simkit as sk
LIGHT = True      # figures are not looked at
PROP = "C31"
TECH = "exhaustive enumeration of write schedules (ahead, past block, older history, in preparation) x dimensions x block, buffer and chunk lengths on the real simulator; at every call every visible sample of every created signal is compared with a map from global time to the last value written"
BOUND = dict(quick="all 15 non-empty subsets of 4 write kinds x 8 sets of created signals (1 to 4 dimensions given as number, list or tuple, one to three signals) x blocks 1..5 x 5 buffer/chunk pairs, created in constructor or in preparation",
             thorough="as quick with blocks 1..8, 40 buffer/chunk pairs and both start modes")
CHUNK = 8
DIMS = [{"a": 2}, {"a": (2,)}, {"a": (2, 3)}, {"a": (1, 2, 2), "b": 1}, {"a": 2, "b": 2, "c": 2}, {"b": (2, 1), "a": (2, 1), "m": (3,)}, {"x~y": 1, "s": [2]}, {"a": [2, 3], "b": np.int64(2), "d": [np.int64(1), 2]}]
KINDS = ["ahead", "past", "older", "prep"]

def cases(tier, seed):
    full = tier == "thorough"
    subsets = [list(c) for k in range(1, 5) for c in itertools.combinations(KINDS, k)]
    for B in range(1, 9 if full else 6):
        pairs = [(2 * B, B), (2 * B + 1, B + 2), (3 * B + 2, B + 1), (40, 50), (5 * B, 2 * B)]
        if full:
            pairs = [(max(2, 2 * B + d), B + e) for d in range(8) for e in range(5)] + [(60, 70)]
        for buf, chunk in pairs:
            for di, dims in enumerate(DIMS):
                for kinds in subsets:
                    for start0 in (False, True) if full else ((di + B) % 2 == 0,):
                        for where in ("init", "prepare") if di in (1, 4) else ("init",):
                            yield dict(free=[1], ctrl=[1], mics=[2], L=3, bs=B, buf=max(2, buf), chunk=chunk, tot=3 * B + 11, start0=start0, feedback=True, dims=di, kinds=kinds, where=where)

class Local(sk.PlanProcessor):
    def __init__(self, sim_info, arrays, block_size, sc, d, ctx):
        super().__init__(sim_info, arrays, block_size, sc, d, watch=False)
        self.ctx, self.dims = ctx, {n: (int(v),) if np.ndim(v) == 0 else tuple(map(int, v)) for n, v in DIMS[sc["dims"]].items()}
        self.model = {n: {} for n in self.dims}      # global time -> value
        self.k = 0
        if sc["where"] == "init":
            self.create()
    def create(self):
        for n, v in DIMS[self.sc["dims"]].items():
            self.sig.create_signal(n, v)
            self.ctx.check(np.shape(self.sig[n]) == self.dims[n] + (self.sc["buf"] + self.sc["chunk"],) and not np.any(self.sig[n]), "created", f"{n}: {np.shape(self.sig[n])}")
    def write(self, g_next, lo, hi):
        """new values for the times lo <= g < hi; g_next is the time of the sample at the local index"""
        idx = self.sig.idx
        for n, dim in self.dims.items():
            for g in range(max(lo, g_next - idx), hi):      # only what is visible
                self.k += 1
                v = self.k + np.arange(np.prod(dim)).reshape(dim) * 0.001 + len(n) * 0.1 + (ord(n[0]) - 96) * 0.01
                self.sig[n][..., idx + g - g_next] = v
                self.model[n][g] = v
    def look(self, g_next, what, ahead):
        """everything visible"""
        idx = self.sig.idx
        for n, dim in self.dims.items():
            x = self.sig[n]
            if not self.ctx.check(x.shape == dim + (self.sc["buf"] + self.sc["chunk"],), "shape", f"{what}, {n}: {x.shape}"):
                continue
            want = np.zeros(dim + (idx + ahead,))
            for i in range(idx + ahead):
                v = self.model[n].get(g_next - idx + i)
                if v is not None:
                    want[..., i] = v
            self.ctx.close(x[..., :idx + ahead], want, "visible", f"{what}, {n} (last axis is time, the next sample is at {idx})")
            self.ctx.state(n, want[..., -min(idx + ahead, 2 * self.block_size):])
    def prepare(self):
        super().prepare()
        if self.sc["where"] == "prepare":
            self.create()
        if "prep" in self.sc["kinds"]:
            self.look(1, "preparation", 0)
            self.write(1, 2 - self.sc["buf"], 1 + self.block_size)     # all the history and one block ahead
    def process(self, num_samples):
        B = self.block_size
        g = (self.calls + 1) * B           # time of the sample at the local index
        self.look(g, f"call {self.calls + 1}", B)
        if "older" in self.sc["kinds"]: self.write(g, g - 2 * B, g - B)
        if "past" in self.sc["kinds"]: self.write(g, g - B, g)
        if "ahead" in self.sc["kinds"]: self.write(g, g, g + B)
        super().process(num_samples)
        self.look(g, f"after call {self.calls}", B)

def run_case(ctx, case):
    sc = case
    d = sk.make_data(sc, ctx.rng("c31", *sk.topo_label(sc)))
    setup = sk.make_setup(sc, d)
    sim = setup.create_simulator()
    proc = Local(sim.sim_info, sim.arrays, sc["bs"], sc, d, ctx)
    sim.add_processor(proc)
    sk.record_all(sim, sc)
    tot = sc["tot"]
    rec = {}
    # values written ahead (or never) are final before they are recorded
    if not {"past", "older"} & set(sc["kinds"]):
        for n, dim in proc.dims.items():
            if len(dim) == 1:
                for suffix, ivs in (("", None), (" part", [(2, 5), (7, tot - 2)])):
                    kw = {} if ivs is None else dict(save_at=core.IntervalCounter(ivs))
                    sim.diag.add_diagnostic("loc " + n + suffix, dia.RecordSignal(n, sim.sim_info, num_channels=dim[0], **kw))
                    rec["loc " + n + suffix] = (n, dim, ivs or [(0, tot)])
                sim.diag.add_diagnostic("pow " + n, dia.SignalPower(n, sim.sim_info))
    sim.run_simulation()
    ctx.check(proc.calls * sc["bs"] >= tot, "calls", f"{proc.calls}")
    ref = sk.Reference(sc, d)
    for n in [*sk.names(sc)[0], *sk.names(sc)[1], *sk.names(sc)[2]]:
        ctx.close(sim.diag["rec_" + n].get_output(), ref.get(n, 0, tot), "other-signal", n)
    for name, (n, dim, ivs) in rec.items():
        want = np.full(dim + (tot,), np.nan)
        for a, b in ivs:
            for g in range(a, b):
                want[:, g] = proc.model[n].get(g, np.zeros(dim))
        ctx.close(sim.diag[name].get_output(), want, "recorded", name)
        if len(ivs) == 1:
            ctx.close(sim.diag["pow " + n].get_output(), np.mean(want ** 2, axis=0), "recorded-power", name)
    ctx.step(tot); ctx.trace()
