"""C07: states and snapshots show the value after exactly X samples; property expressions."""
import itertools
import numpy as np
import aspsim.diagnostics.core as core
import aspsim.diagnostics.diagnostics as dia
from mc import simkit as sk
PROP = "C07"
BOUND = dict(quick="block sizes 1..6, save frequencies 1..tot+1, all index lists within 7 samples, tots 7 and 19, 3 buffer/chunk pairs; all property expressions up to 4 selectors over a nested object",
             thorough="block sizes 1..9, all index lists within 10 samples, 8 buffer/chunk pairs; expressions up to 5 selectors")

def cases(tier, seed):
    full = tier == "thorough"
    for bs in range(1, 10 if full else 7):
        for buf, chunk in [(2 * bs, bs), (2 * bs + 1, bs + 2), (40, 40)] + ([(2 * bs + d, bs + e) for d in (2, 5) for e in (1, 4)] if full else []):
            for tot in ([7, 19, 30] if full else [7, 19]):
                yield dict(kind="freq", free=[1], ctrl=[], mics=[1], L=2, bs=bs, buf=buf, chunk=chunk, tot=tot)
            n = 10 if full else 7
            masks = range(1, 1 << n)
            per = 64
            for lo in range(1, 1 << n, per):
                yield dict(kind="lists", free=[1], ctrl=[], mics=[1], L=2, bs=bs, buf=buf, chunk=chunk, tot=n, lo=lo, hi=min(lo + per, 1 << n))
    depth = 5 if full else 4
    firsts = ["a", "d", "l", "n", "o", "_p", "x1"]
    for f in firsts:
        yield dict(kind="expr", first=f, depth=depth)

class Held(dia.RecordFilter):
    """keeps what the base class holds after every snapshot, as it is when the simulation is over"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.history = []
    def save(self, processor, sig, chunk_interval, glob_interval):
        super().save(processor, sig, chunk_interval, glob_interval)
        self.history.append(self.get_output())
class Snap(dia.RecordFilter):
    """keeps every snapshot the base class takes"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.history = []
    def save(self, processor, sig, chunk_interval, glob_interval):
        super().save(processor, sig, chunk_interval, glob_interval)
        self.history.append(np.array(self.get_output()))
class SnapDiff(dia.RecordFilterDifference):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.history = []
    def save(self, processor, sig, chunk_interval, glob_interval):
        super().save(processor, sig, chunk_interval, glob_interval)
        self.history.append(np.array(self.get_output()))

CONTAINERS = ["irs", "irs[0]", "irs[1]", "book", "book['a']", "book['deep']", "book['deep']['b'][1][0]", "thing", "thing.w", "thing.k"]
def flat(v):
    """all changing numbers in a nested container (every one of them counts the calls)"""
    if isinstance(v, sk.Thing): return np.concatenate([v.w, [v.k]])
    if isinstance(v, dict): return np.concatenate([flat(x) for x in v.values()])
    if isinstance(v, (list, tuple)): return np.concatenate([flat(x) for x in v if x is not v[-1] or not isinstance(x, int)])
    return np.ravel(np.asarray(v, dtype=float))
# values of other types, of changing shape, and changes that are small: value after c calls
OTHER = {"slow": lambda c: np.ones(3) + c * 1e-7, "faint": lambda c: np.full(2, c * 1e-12), "big": lambda c: np.full(2, 1e12) + c,
         "cplx": lambda c: np.full(2, c * 1j), "ints": lambda c: np.full(2, c), "flag": lambda c: bool(c % 2), "text": lambda c: f"call{c}", "grow": lambda c: list(range(1, c + 1)),
         "maybe": lambda c: None if c % 3 == 0 else np.array([c]), "swap": lambda c: np.full(1 + c % 3, float(c)) if c else np.zeros(1)}
SCALE = {"slow": (1, 1e7), "faint": (0, 1e12), "big": (1e12, 1)}
def other_same(expr, v, w):
    if expr in SCALE:
        o, k = SCALE[expr]
        return np.shape(v) == np.shape(w) and bool(np.all(np.abs((np.asarray(v) - o) * k - (np.asarray(w) - o) * k) < 0.01))
    if isinstance(w, np.ndarray):
        return isinstance(v, np.ndarray) and v.dtype == w.dtype and np.array_equal(v, w)
    return type(v) is type(w) and v == w
def counter_at(c): return np.array([1.0, 10.0]) * c
def obj0_at(c): return np.array([1.0, 2.0, 3.0]) * c
def mat_at(c): return np.arange(6).reshape(2, 3) * float(c)

def run_case(ctx, case):
    if case["kind"] == "expr":
        return expressions(ctx, case)
    sc = case
    d = sk.make_data(sc, ctx.rng("c07", *sk.topo_label(sc)))
    setup, sim, proc = sk.build(sc, d)
    tot, B = sc["tot"], sc["bs"]
    si = sim.sim_info
    want, snaps = {}, {}
    def calls(X): return X // B
    def add_state(name, expr, dim, fn, f):
        sim.diag.add_diagnostic(name, dia.RecordState(expr, dim, si, save_frequency=f))
        xs = list(range(f, tot + 1, f))
        want[name] = (xs, fn, (dim,) if isinstance(dim, int) else dim)
    def add_snap(name, cls, args, fn, at):
        sim.diag.add_diagnostic(name, cls(*args, si, save_at=at))
        xs = list(range(at, tot + 1, at)) if isinstance(at, int) else list(at)
        snaps[name] = (xs, fn)
    held = {}
    def add_held(name, expr, at):
        sim.diag.add_diagnostic(name, Held(expr, si, save_at=at))
        held[name] = (list(range(at, tot + 1, at)) if isinstance(at, int) else list(at), expr)
    others = {}
    def add_other(name, expr, at):
        sim.diag.add_diagnostic(name, Held(expr, si, save_at=at))
        others[name] = (list(range(at, tot + 1, at)) if isinstance(at, int) else list(at), expr)
    for at in (1, 2, 3, tot, (1, tot), tuple(range(1, tot, 3))) if sc["kind"] == "freq" or sc["lo"] == 1 else ():
        for expr in CONTAINERS:
            add_held(f"h{expr}{at}", expr, at)
    if sc["kind"] == "freq":
        for f in range(1, tot + 2):
            add_state(f"c{f}", "counter", 2, counter_at, f)
            add_state(f"k{f}", "obj['k'][0]", 3, obj0_at, f)
            add_state(f"s{f}", "obj['k'][1]", 1, lambda c: np.array([7.0 + c]), f)
            add_state(f"m{f}", "mat", (2, 3), mat_at, f)
            add_state(f"n{f}", "calls", 1, lambda c: np.array([float(c)]), f)
            for e in ("slow", "faint", "big", "ints"):
                add_state(f"{e}{f}", e, len(OTHER[e](0)), OTHER[e], f)
            for e in OTHER:
                add_other(f"o{e}{f}", e, f)
            add_snap(f"i{f}", Snap, ("mat",), mat_at, f)
            add_snap(f"d{f}", SnapDiff, ("obj['k'][0]", "obj['k'][1]"), lambda c: obj0_at(c) - (7.0 + c), f)
    else:
        for mask in range(sc["lo"], sc["hi"]):
            xs = [i + 1 for i in range(tot) if (mask >> i) & 1]
            at = [xs, tuple(xs), np.array(xs)][mask % 3]
            add_snap(f"l{mask}", Snap, ("mat",), mat_at, at)
            if mask % 11 == 0:
                e = list(OTHER)[mask // 11 % len(OTHER)]
                add_other(f"o{mask}", e, at)
            if mask % 5 == 0:
                add_snap(f"q{mask}", SnapDiff, ("obj['k'][0]", "obj['k'][1]"), lambda c: obj0_at(c) - (7.0 + c), at)
    sim.run_simulation()
    for name, (xs, fn, dim) in want.items():
        out = np.asarray(sim.diag[name].get_output())
        if not ctx.check(out.shape[:-1] == tuple(dim) and out.shape[-1] >= len(xs), "state-shape", f"{name}: {out.shape}, {len(xs)} values of {dim}"):
            continue
        if xs:
            exp = np.stack([fn(calls(X)) for X in xs], axis=-1)
            ctx.close(out[..., :len(xs)], exp, "state-value", f"{name} (block {B}): value after each of {xs[:6]}.. samples")
            e = name.rstrip("0123456789")
            if e in SCALE:
                ctx.check(other_same(e, out[..., :len(xs)], exp), "state-value", lambda: f"{name} (block {B}): {out[..., :len(xs)]}, expected {exp}")
        ctx.check(bool(np.all(np.isnan(out[..., len(xs):]))), "state-extra", f"{name}: values beyond the schedule {xs}")
        ctx.state(out); ctx.trace(); ctx.step(tot)
    for name, (xs, expr) in held.items():
        h = sim.diag[name].history
        if ctx.check(len(h) == len(xs), "snapshot-count", f"{name}: {len(h)} snapshots for {xs}"):
            for X, v in zip(xs, h):
                got = flat(v)
                ctx.close(got, np.full(len(got), float(calls(X))), "snapshot-not-a-copy", f"{name} (block {B}): the value held of sample {X}, read after the simulation")
            if xs:
                ctx.close(flat(sim.diag[name].get_output()), np.full(len(flat(h[-1])), float(calls(xs[-1]))), "snapshot-not-a-copy", name)
        ctx.trace(); ctx.step(tot)
    for name, (xs, expr) in others.items():
        h = sim.diag[name].history
        if ctx.check(len(h) == len(xs), "snapshot-count", f"{name}: {len(h)} snapshots for {xs}"):
            for X, v in zip(xs, h):
                w = OTHER[expr](calls(X))
                ctx.check(other_same(expr, v, w), "snapshot-value", lambda: f"{expr} (block {B}) after {X} samples: {v!r}, expected {w!r}")
        ctx.trace(); ctx.step(tot)
    for name, (xs, fn) in snaps.items():
        h = sim.diag[name].history
        if ctx.check(len(h) == len(xs), "snapshot-count", f"{name}: {len(h)} snapshots for {xs}"):
            for X, v in zip(xs, h):
                ctx.close(v, fn(calls(X)), "snapshot-value", f"{name} (block {B}): value after {X} samples")
            if xs:
                # the processor kept changing the object in place after the last snapshot was taken
                ctx.close(sim.diag[name].get_output(), fn(calls(xs[-1])), "snapshot-not-a-copy", name)
        ctx.state(*h); ctx.trace(); ctx.step(tot)

class Node:
    def __init__(self, v, level):
        self.v = v
        if level:
            self.a = Node(v + "a", level - 1)
            self.d = {"k": Node(v + "k", level - 1), "0": Node(v + "q", level - 1), "two words": Node(v + "w", level - 1), "a.b": Node(v + "z", level - 1), "x_1": Node(v + "u", level - 1)}
            self.l = [Node(v + "0", level - 1), Node(v + "1", level - 1), Node(v + "2", level - 1)]
            self.n = {0: Node(v + "i", level - 1), 1: Node(v + "j", level - 1), 12: Node(v + "m", level - 1), -3: Node(v + "n", level - 1)}
            self._p = (Node(v + "t", level - 1), Node(v + "s", level - 1))
            self.x1 = Node(v + "x", level - 1)
            self.o = {"k": [{"z": Node(v + "o", level - 1)}, [[Node(v + "g", level - 1)]]]}

SELECT = {"a": ["a"], "x1": ["x1"], "d": ["d['k']", "d['0']", "d['two words']", "d['x_1']", "d['a.b']"], "l": ["l[0]", "l[2]", "l[-1]"],
          "n": ["n[0]", "n[12]", "n[-3]"], "_p": ["_p[1]", "_p[-2]"], "o": ["o['k'][0]['z']", "o['k'][1][0][0]"]}

def expressions(ctx, case):
    flat = [e for v in SELECT.values() for e in v]
    depth = case["depth"]
    root = Node("", 3)
    # every chain of selectors up to the depth, starting with the given attribute
    def chains(prefix, k):
        yield prefix
        if k:
            for e in (flat if k > 1 else ["a", "l[1]", "d['k']", "o['k'][0]['z']", "n[1]"]):
                yield from chains(prefix + "." + e, k - 1)
    for first in SELECT[case["first"]]:
        for ch in chains(first, min(depth - 2, 2)):
            want = eval("root." + ch, {"root": root})
            got = core.attritemgetter(ch)(root)
            ctx.check(got is want, "expression-selects-wrong-object", f"{ch!r}: {getattr(got, 'v', got)!r}, expected {want.v!r}")
            ctx.step(); ctx.trace(); ctx.state(ch)
            if want.__dict__.get("l"):
                ctx.check(core.attritemgetter(ch + ".l")(root) is want.l, "expression-selects-wrong-object", ch + ".l")
                ctx.check(core.attritemgetter(ch + ".v")(root) == want.v, "expression-selects-wrong-object", ch + ".v")
