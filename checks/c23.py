"""C23: phase and event counters follow their definition."""
import itertools
import numpy as np
from aspsim.counter import PhaseCounter, EventCounter
PROP = "C23"
TECH = "explicit-state enumeration on the real counters: all tuples of phase lengths and all event definitions over small values, stepped past the end, with every insertion point of a later event; compared with the definition after every step"
BOUND = dict(quick="1 to 4 phases with lengths from {0,1,2,3,infinite,-1} (all tuples); 1 to 3 events with periods 1..6 and offsets -3..7 (all singles and pairs, triples of periods<=3), an event added after every step",
             thorough="5 phases, 5 lengths more; triples of events with periods<=6")
CHUNK = 30
INF = float("inf")

def cases(tier, seed):
    t = tier == "thorough"
    vals = [0, 1, 2, 3, "inf", -1] + ([5, 7] if t else [])
    for n in range(1, 6 if t else 5):
        for head in itertools.product(vals, repeat=max(0, n - 2)):
            yield dict(kind="phase", head=list(head), rest=min(n, 2), vals=vals)
    yield dict(kind="phase_np")
    offs = list(range(-3, 8))
    ev = [[f, o] for f in range(1, 7) for o in offs]
    for e in ev:
        yield dict(kind="event", first=e, others=ev)
    small = [[f, o] for f in range(1, 7 if t else 4) for o in ((-1, 0, 1, 2, 5) if t else (0, 1, 2))]
    for a, b in itertools.product(small, repeat=2):
        yield dict(kind="event3", first=a, second=b, others=small)
    for e in ev:
        yield dict(kind="late", first=e, others=[[f, o] for f in (1, 2, 3, 5) for o in (0, 1, 4, 9)])

def vals_of(L): return [l for l in L if l < INF] + [0]

def phases(ctx, lens, conv=lambda x: x):
    d = {f"p{i}": conv(v) for i, v in enumerate(lens)}
    given = dict(d)
    pc = PhaseCounter(d)
    ctx.check(d == given, "definition-changed", f"{given} became {d}")
    L = [INF if v == "inf" or v < 0 else v for v in lens]
    order = [(f"p{i}", l) for i, l in enumerate(L) if l > 0]
    seq = []          # (phase, first)
    horizon = 24 if max(v for v in vals_of(L)) > 3 else 16
    for name, l in order:
        k = 0
        while k < l and len(seq) < horizon:
            seq.append((name, k == 0)); k += 1
    end = len(seq)
    while end < horizon and len(seq) < horizon + 4:
        seq.append((None, None if len(seq) == end else False))
    for t, (name, first) in enumerate(seq):
        ctx.step()
        ctx.check(pc.phase == name, "phase", f"{lens}: at {t} in {pc.phase}, expected {name}")
        for other in d:
            ctx.check(bool(pc.current_phase_is(other)) == (other == name), "current_phase_is", f"{lens}: at {t} {other}")
        if first is not None:
            ctx.check(bool(pc.first_sample) == first, "first-sample", f"{lens}: at {t} in {name} first_sample={pc.first_sample}")
        ctx.state(lens, t, pc.phase, bool(pc.first_sample) if name else None)
        pc.progress()
    ctx.trace()

def due(defs, idx):
    return sorted(n for n, (f, o) in defs.items() if (idx - o) % f == 0)

def events(ctx, evs, late=None, late_at=None, steps=14, key="event"):
    d = {f"e{i}": tuple(e) for i, e in enumerate(evs)}
    mine = dict(d)
    ec = EventCounter(mine)
    twin = EventCounter(mine)
    cur = dict(d)
    for idx in range(1, steps):
        if late is not None and idx - 1 == late_at:
            ec.add_event("late", *late); cur["late"] = tuple(late)
        ec.progress(); twin.progress()
        ctx.step()
        ctx.check(sorted(ec.event) == due(cur, idx) and len(set(ec.event)) == len(ec.event), key, f"{cur}: at {idx} {ec.event}, due {due(cur, idx)}")
        ctx.check(sorted(twin.event) == due(d, idx), key + "-twin", f"{d}: another counter at {idx} {twin.event}, due {due(d, idx)}")
        ctx.state(sorted(cur.items()), idx, sorted(ec.event))
    ctx.trace()

def run_case(ctx, case):
    k = case["kind"]
    if k == "phase":
        for rest in itertools.product(case["vals"], repeat=case["rest"]):
            phases(ctx, list(case["head"]) + list(rest), lambda v: INF if v == "inf" else v)
    elif k == "phase_np":
        for lens in itertools.product([0, 1, 3, "inf"], repeat=3):
            phases(ctx, list(lens), lambda v: np.inf if v == "inf" else np.int64(v))
    elif k == "event":
        events(ctx, [case["first"]], steps=30)
        for o in case["others"]:
            events(ctx, [case["first"], o])
    elif k == "event3":
        for o in case["others"]:
            events(ctx, [case["first"], case["second"], o])
    else:
        for o in case["others"]:
            for at in range(0, 6):
                events(ctx, [case["first"]], o, at, key="late")
