"""C10: each source-microphone pair uses exactly the propagation selected for it."""
import itertools
import numpy as np
import aspsim.diagnostics.diagnostics as dia
from mc import simkit as sk, rirref
LIGHT = True      # figures are not looked at
PROP = "C10"
TECH = "explicit-state exploration of the real set-up code: all assignments of path choices to pairs and all orders of the set-up operations, against a decision table"
BOUND = dict(quick="2x2 pairs of 2-channel arrays: all 7^4 assignments of {default, none, direct, random, ism, path, path and type} under 2 defaults each; all linear orders of 4 additions + 4 choices; empty and unequal arrays; 6 samples simulated",
             thorough="all 7^4 assignments under all 4 defaults and with high-pass; 2x3 pairs: all 4^6 assignments; orders with 5 choices")
CHUNK = 1
KINDS = ["default", "none", "direct", "random", "ism", "path", "both"]
PAIRS = [("s0", "m0"), ("s0", "m1"), ("l0", "m0"), ("l0", "m1")]
ADD = ["s0", "l0", "m0", "m1"]

def cases(tier, seed):
    full = tier == "thorough"
    asg = list(itertools.product(range(7), repeat=4))
    for lo in range(0, len(asg), 49):
        yield dict(kind="assign", lo=lo, hi=min(len(asg), lo + 49), defaults=["none", "direct", "random", "ism"] if full else None, hp=0)
        if full:
            yield dict(kind="assign", lo=lo, hi=min(len(asg), lo + 49), defaults=["direct"], hp=100)
    n = len(list(orders(5 if full else 4)))
    for lo in range(0, n, 300 if full else 150):
        yield dict(kind="orders", lo=lo, hi=min(n, lo + (300 if full else 150)), nops=5 if full else 4)
    for a in itertools.product([0, 1, 3], repeat=4):
        yield dict(kind="shapes", n=list(a))
    if full:
        a6 = list(itertools.product(range(4), repeat=6))
        for lo in range(0, len(a6), 128):
            yield dict(kind="six", lo=lo, hi=lo + 128)

def orders(nops):
    """all orders of adding four arrays and making choices, a choice after both of its arrays"""
    ops = [("add", a) for a in ADD] + [("path", 0), ("type", 1, "direct"), ("type", 3, "ism"), ("type", 0, "none"), ("path", 3)][:nops]
    need = {("path", 0): ("s0", "m0"), ("type", 1, "direct"): ("s0", "m1"), ("type", 3, "ism"): ("l0", "m1"), ("type", 0, "none"): ("s0", "m0"), ("path", 3): ("l0", "m1")}
    def rec(done, left):
        if not left:
            yield list(done)
            return
        for i, o in enumerate(left):
            if o in need and not all(("add", x) in done for x in need[o]):
                continue
            yield from rec(done + [o], left[:i] + left[i + 1:])
    yield from rec([], ops)

def verify(ctx, setup, sim, want, d, key):
    """want: (src, mic) -> ('path', array) or a type name"""
    si = sim.sim_info
    for (s, m), w in want.items():
        src, mic = sim.arrays[s], sim.arrays[m]
        h = np.asarray(sim.arrays.paths[s][m])
        ctx.check(h.ndim == 3 and h.shape[:2] == (src.num, mic.num), "path-shape", f"{s}->{m} {w}: {h.shape}")
        typ = sim.arrays.path_info[f"{s}->{m}"]["type"]
        name = "modified" if isinstance(w, tuple) else w
        if src.num == 0 or mic.num == 0:
            continue
        if name == "modified":
            ctx.check(h.shape == w[1].shape and np.array_equal(h, w[1]), "path-verbatim", f"{s}->{m}: explicitly set path not used")
        elif name == "none":
            ctx.check(not np.any(h), "none-not-silent", f"{s}->{m}")
        elif name == "direct":
            e = np.zeros(h.shape); e[..., 0] = np.eye(src.num)
            ctx.close(h, rirref.highpass(e, si.samplerate, si.highpass_cutoff), "direct-not-identity", f"{s}->{m}")
        elif name == "random":
            ctx.check(h.shape[2] == si.max_room_ir_length and np.all(np.isfinite(h)) and np.any(h), "random-length", f"{s}->{m}: {h.shape}")
        else:
            ctx.close(h, rirref.highpass(rirref.ism(src.pos, mic.pos, si), si.samplerate, si.highpass_cutoff), "ism-not-room", f"{s}->{m}")
        ctx.check(typ == name, "path-info-type", f"{s}->{m}: reported {typ}, used {name}")
        ctx.state(s, m, name, h.shape)
    # behaviour: the microphones of the simulation are the convolution by exactly these paths
    mics = {m for _, m in want}
    for m in mics:
        sim.diag.add_diagnostic("rec_" + m, dia.RecordSignal(m, si, num_channels=sim.arrays[m].num))
    sim.run_simulation()
    tot = si.tot_samples
    for m in mics:
        ref = np.zeros((sim.arrays[m].num, tot))
        for s in d["x"]:
            h = np.asarray(sim.arrays.paths[s][m])
            if h.shape[0] and h.shape[1]:
                ref += sk.conv(d["x"][s], h, tot)
        got = sim.diag["rec_" + m].get_output()
        ctx.close(got, ref, "signal-not-path", f"{m}")
    ctx.trace(); ctx.step(tot + len(want))

def begin(sc, ctx):
    d = sk.make_data(sc, ctx.rng("c10", sc["free"], sc["ctrl"], sc["mics"]))
    setup = sk.SimulatorSetup()
    sk.base_config(setup, sc)
    free, ctrl, mics = sk.names(sc)
    allnames = {**free, **ctrl, **mics}
    pos = {n: sk.positions(c, k) for k, (n, c) in enumerate(allnames.items())}
    def add(n):
        if n[0] == "s": setup.add_free_source(n, pos[n], sk.TableSource(d["x"][n]))
        elif n[0] == "l": setup.add_controllable_source(n, pos[n])
        else: setup.add_mics(n, pos[n])
    return d, setup, add

def run_case(ctx, case):
    kind = case["kind"]
    base = dict(free=[2], ctrl=[2], mics=[2, 2], L=3, tot=6, buf=4, chunk=9, irlen=7, reverb="none")
    if kind == "assign":
        asg = list(itertools.product(range(7), repeat=4))[case["lo"]:case["hi"]]
        for i, a in enumerate(asg):
            defaults = case["defaults"] or [["none", "ism"], ["direct", "random"]][(sum(a) + i) % 2]
            for default in defaults:
                d, setup, add = begin(base, ctx)
                si = setup.sim_info
                si.reverb = default; si.highpass_cutoff = case["hp"]
                for n in ADD: add(n)
                want = {}
                types = {}
                for (s, m), k in zip(PAIRS, a):
                    kk = KINDS[k]
                    if kk == "default": want[s, m] = default
                    elif kk == "path":
                        setup.set_path(s, m, d["h"][s][m]); want[s, m] = ("path", d["h"][s][m].copy())
                    elif kk == "both":
                        t = ["none", "direct", "random", "ism"][(i + k) % 4]
                        if i % 2: setup.arrays.set_prop_paths({s: {m: d["h"][s][m]}})
                        types.setdefault(s, {})[m] = t
                        if not i % 2: setup.set_path(s, m, d["h"][s][m])
                        want[s, m] = ("path", d["h"][s][m].copy())
                    else:
                        types.setdefault(s, {})[m] = kk; want[s, m] = kk
                setup.arrays.set_path_types(types)
                verify(ctx, setup, setup.create_simulator(), want, d, kind)
    elif kind == "orders":
        for ops in list(orders(case["nops"]))[case["lo"]:case["hi"]]:
            d, setup, add = begin(base, ctx)
            setup.sim_info.reverb = "ism" if ops[0][1] == "s0" else "direct"
            want = {p: setup.sim_info.reverb for p in PAIRS}
            for o in ops:
                if o[0] == "add": add(o[1])
                elif o[0] == "path":
                    s, m = PAIRS[o[1]]; setup.set_path(s, m, d["h"][s][m])
                else:
                    s, m = PAIRS[o[1]]; setup.arrays.set_path_types({s: {m: o[2]}})
            for o in ops:
                if o[0] == "type": want[PAIRS[o[1]]] = o[2]
            for o in ops:
                if o[0] == "path": want[PAIRS[o[1]]] = ("path", d["h"][PAIRS[o[1]][0]][PAIRS[o[1]][1]].copy())
            verify(ctx, setup, setup.create_simulator(), want, d, kind)
    elif kind == "shapes":
        n = case["n"]
        sc = dict(base, free=[n[0]], ctrl=[n[1]], mics=[n[2], n[3]])
        for default in ("none", "random", "ism"):
            d, setup, add = begin(sc, ctx)
            setup.sim_info.reverb = default
            for x in ADD: add(x)
            setup.arrays.set_path_types({"s0": {"m1": "random"}, "l0": {"m1": "none"}})
            verify(ctx, setup, setup.create_simulator(), {("s0", "m0"): default, ("s0", "m1"): "random", ("l0", "m0"): default, ("l0", "m1"): "none"}, d, kind)
    elif kind == "six":
        sc = dict(base, ctrl=[2], mics=[2, 2, 2])
        pairs = [(s, m) for s in ("s0", "l0") for m in ("m0", "m1", "m2")]
        for i, a in enumerate(list(itertools.product(range(4), repeat=6))[case["lo"]:case["hi"]]):
            d, setup, add = begin(sc, ctx)
            default = ["none", "ism"][i % 2]
            setup.sim_info.reverb = default
            for x in ["m2", "s0", "m0", "l0", "m1"]: add(x)
            want = {}
            for (s, m), k in zip(pairs, a):
                kk = ["default", "direct", "random", "path"][k]
                if kk == "default": want[s, m] = default
                elif kk == "path":
                    setup.set_path(s, m, d["h"][s][m]); want[s, m] = ("path", d["h"][s][m].copy())
                else:
                    setup.arrays.set_path_types({s: {m: kk}}); want[s, m] = kk
            verify(ctx, setup, setup.create_simulator(), want, d, kind)
