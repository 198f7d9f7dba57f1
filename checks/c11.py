"""C11: simulators created from the same set-up are isolated from each other."""
import copy, dataclasses as dc, itertools
import numpy as np
import aspsim.diagnostics.diagnostics as dia
import aspsim.room.trajectory as tr
from aspsim.simulator import SimulatorSetup
from mc import simkit as sk, rirref
LIGHT = True      # figures are not looked at
PROP = "C11"
TECH = "explicit-state exploration of operation histories on one real set-up (create, run, change configuration, paths, types, sources, arrays), differential against a fresh set-up per simulator"
BOUND = dict(quick="all histories create+w and x+create+w' over 13 operations with |w|=3, |w'|=2, histories of reverberant rooms of equal volume with 5 operations (then every simulator is run, oldest or newest first); 2 sources, 1 static and 1 moving microphone, room and set paths",
             thorough="all histories create+w, |w|=4, and x+create+w', |w'|=3")
CHUNK = 1
OPS = "CRTSPQYXNMAWG"

def cases(tier, seed):
    n = 4 if tier == "thorough" else 3
    words = ["C" + "".join(w) for w in itertools.product(OPS, repeat=n)]
    words += [x + "C" + "".join(w) for x in OPS if x not in "CR" for w in itertools.product(OPS, repeat=n - 1)]
    words = [w for w in words if w.count("C") <= 3]
    # reverberant rooms of equal volume, one after the other
    reverberant = ["V" + "".join(w) + "C" for w in itertools.product("CUSP", repeat=n - 1)]
    for lo in range(0, len(reverberant), 4):
        yield dict(n=n, words=reverberant[lo:lo + 4], new_first=lo // 4 % 2)
    per = 120 if tier == "thorough" else 40
    for lo in range(0, len(words), per):
        yield dict(n=n, words=words[lo:lo + per], new_first=(lo // per) % 2)

SC = dict(free=[1, 1], ctrl=[], mics=[2, 1], L=3, tot=7, buf=4, chunk=3, reverb="ism", irlen=9, paths=False)

class Move:
    """a trajectory that can be copied"""
    def __call__(self, t):
        return np.array([[0.5 + 0.05 * t, 0.3, 0.1 - 0.03 * t]])

def fresh(ctx):
    d = sk.make_data(SC, ctx.rng("c11"))
    setup = SimulatorSetup(rng=np.random.default_rng(5))
    sk.base_config(setup, SC)
    setup.add_free_source("s0", sk.positions(1, 0), sk.TableSource(d["x"]["s0"].copy()))
    setup.add_free_source("s1", sk.positions(1, 1), sk.TableSource(d["x"]["s1"].copy()))
    setup.add_mics("m0", sk.positions(2, 2))
    setup.add_mics("m1", tr.Trajectory(Move()))
    p = d["h"]["s0"]["m0"].copy()
    setup.set_path("s0", "m0", p)
    return dict(setup=setup, d=d, path=p, k=0)

def mutate(env, op):
    s, d = env["setup"], env["d"]
    si = s.sim_info
    env["k"] += 1
    if op == "T": si.tot_samples, si.sim_buffer, si.sim_chunk_size = 5, 6, 2
    elif op == "S": si.c, si.extra_delay, si.samplerate = 300.0, 3, 900
    elif op == "G": si.room_size[0] = 5.0; si.room_center[2] = 0.2; si.max_room_ir_length = 7
    elif op == "V": si.rt60, si.max_room_ir_length = 0.125, 30
    elif op == "U":       # another room of the same volume
        i = [[4.0, 4.0, 3.0], [6.0, 4.0, 2.0], [3.0, 3.2, 5.0]].index(list(si.room_size)) if list(si.room_size)[0] != 5.0 else 0
        si.room_size = [[4.0, 4.0, 3.0], [6.0, 4.0, 2.0], [3.0, 3.2, 5.0]][(i + 1) % 3]
    elif op == "W": si.array_update_freq, si.save_source_contributions, si.start_sources_before_0 = 2, True, True
    elif op == "P":
        env["path"] = d["h"]["s0"]["m0"] * (1.5 + env["k"]); s.set_path("s0", "m0", env["path"])
    elif op == "Q": env["path"] *= -1.25
    elif op == "Y": s.arrays.set_path_types({"s1": {"m0": "none"}})
    elif op == "X": s.set_source("s0", sk.TableSource(d["x"]["s1"] * (2.0 + env["k"])))
    elif op == "N": s.arrays["s1"].source.get_samples(2)
    elif op == "M":
        s.arrays["m0"].pos += 0.07
        s.arrays["s1"].pos += 0.03
    elif op == "A":
        name = f"a{env['k']}"
        s.add_free_source(name, sk.positions(1, 4), sk.TableSource(d["x"]["s0"][:, 5:].copy()))
        s.set_path(name, "m0", d["h"]["s1"]["m0"] * 2)

def finish(sim):
    """run one simulator; everything it did"""
    names = {a.name: a.num for a in sim.arrays}
    for n, c in names.items():
        sim.diag.add_diagnostic("rec_" + n, dia.RecordSignal(n, sim.sim_info, num_channels=c))
    sim.run_simulation()
    return dict(rec={n: np.array(sim.diag["rec_" + n].get_output()) for n in names}, info=dc.asdict(sim.sim_info),
                paths={(s.name, m.name): np.array(p) for s, m, p in sim.arrays.iter_paths()},
                types=copy.deepcopy(sim.arrays.path_type), keys=sorted(sim.sig.keys()), sent={s.name: list(s.source.calls) for s in sim.arrays.free_sources()})

def fingerprint(setup):
    a = setup.arrays
    return copy.deepcopy(dict(info=dc.asdict(setup.sim_info), pos={x.name: np.array(x.pos) for x in a}, paths={s: {m: np.array(p) for m, p in v.items()} for s, v in a.paths.items()},
        types=a.path_type, src={x.name: (x.source.pos, list(x.source.calls), x.source.table[:, :9]) for x in a.free_sources()}, names=[x.name for x in a]))

def run_case(ctx, case):
    memo = {}
    for w in case["words"]:
        env = fresh(ctx)
        hist = []
        sims = []       # [sim, mutations before creation, result]
        for op in w:
            if op == "C":
                before = fingerprint(env["setup"])
                sims.append([env["setup"].create_simulator(), "".join(hist), None])
                if "V" in hist:      # what a simulator of its own would compute, from the room acoustics package itself
                    a, si = sims[-1][0].arrays, sims[-1][0].sim_info
                    for src, mic, path in a.iter_paths():
                        if a.path_type[src.name][mic.name] == "ism":
                            ctx.close(path, rirref.highpass(rirref.ism(src.pos, mic.pos, si), si.samplerate, si.highpass_cutoff), "room", f"history {w}, {src.name} to {mic.name}", tol=1e-7)
                ctx.check(sk.same(before, fingerprint(env["setup"])), "create-changes-setup", w)
            elif op == "R":
                todo = [s for s in sims if s[2] is None]
                if todo:
                    before = fingerprint(env["setup"])
                    todo[0][2] = finish(todo[0][0])
                    ctx.check(sk.same(before, fingerprint(env["setup"])), "run-changes-setup", w)
            else:
                mutate(env, op); hist.append(op)
            ctx.step()
        todo = [s for s in sims if s[2] is None]
        for s in (todo[::-1] if case["new_first"] else todo):
            s[2] = finish(s[0])
        for i, (sim, muts, res) in enumerate(sims):
            if muts not in memo:
                env2 = fresh(ctx)
                for op in muts:
                    mutate(env2, op)
                memo[muts] = finish(env2["setup"].create_simulator())
            ref = memo[muts]
            for k in ref:
                ctx.check(sk.same(res[k], ref[k]), "not-isolated-" + k, lambda: f"history {w}, simulator {i} (created after {muts!r}): {diff(res[k], ref[k])}")
            ctx.state(muts, i, res["rec"]["m1"]); ctx.trace()
            ctx.step(res["info"]["tot_samples"])

def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in b:
            if k not in a or not sk.same(a[k], b[k]):
                return f"{k}: got {str(a.get(k))[:200]}, alone {str(b[k])[:200]}"
        return f"keys {sorted(map(str, a))} vs {sorted(map(str, b))}"
    return f"got {str(a)[:200]}, alone {str(b)[:200]}"
