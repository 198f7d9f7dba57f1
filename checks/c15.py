"""C15: generated folder names are fresh and file lookups are exact."""
import itertools, shutil
from pathlib import Path
import numpy as np
import aspsim.fileutilities as fu
from mc import simkit as sk
PROP = "C15"
TECH = "exhaustive enumeration on the real functions and a real directory: all subsets of directory listings built from the generator's own colliding names, all subsets of listings of similar file names for every lookup, and sequences of set-ups creating result folders"
BOUND = dict(quick="all subsets of 8 generated names (as folder, as file) with neighbours x 5 prefixes x both naming modes x 1..5 names; all subsets of 220 nine-element listings of similar file names x 9 lookups x both modes; all names up to 5 characters over {a,_,0,1,9} for the index at the end",
             thorough="all subsets of 11 generated names; all subsets of 12 file names; all names up to 7 characters")
CHUNK = 1
PREFIXES = ["figs_", "session_", "", "x_0_1", "a b.c_"]

LISTS = [  # listings of similar names: several series, indices, suffixes, paddings
 ["f_1.json", "f_2.json", "f_10.json", "f_3.pdf", "f_2x.json", "f_.json", "ff_4.json", "f_1_7.json", "g_9.json", "f_002.json", "f_12.json", "f.json"],
 ["sig_5.npz", "sig_50.npz", "sig_500.npz", "sig_a_5.npz", "sig5.npz", "my_sig_6.npz", "sig_6.npz.bak", "sig_-7.npz", "sig_ 8.npz", "sig_4.wav", "sig_+9.npz", "SIG_7.npz"],
 ["1", "2", "12", "a1", "a2", "1a", "2.1", "a_1", "a1.1", "a0", "a00", "b1"],
 ["a.b_1.json", "a.b_2.json", "a_2.json", "a.b_3.x.json", "a.b_10.json", "a.b_.json", "a.b_4", "a.c_5.json", "a.b_1.json.json", "a.b_07.json", "a.b_7.json", "a.b_7x.json"]]
LOOK = [("f_", ".json"), ("f", ".json"), ("f_1_", ".json"), ("", ""), ("f_", ""), ("sig_", ".npz"), ("sig", ".npz"), ("sig_a_", ".npz"), ("a", ""), ("", ".1"), ("a.b_", ".json"), ("a.b_", ""), ("f_1", ".json"), ("sig_5", ".npz"), ("x", "y")]

def cases(tier, seed):
    t = tier == "thorough"
    for pre in PREFIXES:
        for detailed in (False, True):
            for as_file in (False, True):
                yield dict(kind="fresh", prefix=pre, detailed=detailed, as_file=as_file, n=11 if t else 8)
    for li in range(len(LISTS)):
        n = 12 if t else 9
        for keep in itertools.combinations(range(12), n) if not t else [tuple(range(12))]:
            if not t and sum(keep) % 4:
                continue
            yield dict(kind="lookup", listing=li, keep=list(keep))
    for first in "a_019":
        yield dict(kind="index", first=first, n=7 if t else 5)
    for plot in ("pdf", "none"):
        for pre in itertools.product((0, 1), repeat=4):
            yield dict(kind="setups", plot=plot, pre=list(pre))

def run_case(ctx, case):
    globals()["run_" + case["kind"]](ctx, case)
    ctx.trace()

def make(p, as_file):
    p.write_text("x") if as_file else p.mkdir()

def run_fresh(ctx, case):
    pre, det, n = case["prefix"], case["detailed"], case["n"]
    for attempt in range(4):
        # the names this generator uses one after the other
        root = ctx.dir / f"learn{attempt}"; root.mkdir()
        learned = []
        for i in range(n):
            p = fu.get_unique_folder_name(pre, root, det)
            ctx.step()
            ctx.check(not p.exists() and p.parent == root and p.name.startswith(pre), "fresh", f"{p.name} with {learned}")
            make(p, case["as_file"]); learned.append(p.name)
        ctx.check(len(set(learned)) == n, "fresh-distinct", f"{learned}")
        if det:
            break
        base = learned[0][:-1]
        extra = [learned[0] + "0", base[:-1], base + "x", learned[1] + "a"]
        ok = True
        for mask in range(1 << n):
            d = ctx.dir / f"s{attempt}_{mask}"; d.mkdir()
            present = [learned[i] for i in range(n) if mask >> i & 1]
            for name in present + (extra if mask % 3 == 0 else []):
                make(d / name, case["as_file"])
            there = set(x.name for x in d.iterdir())
            p = fu.get_unique_folder_name(pre, d)
            ctx.step()
            ctx.check(p.name not in there and p.parent == d, "fresh", f"{p.name} exists in {sorted(there)}")
            k = 1 + mask % 5
            many = fu.get_multiple_unique_folder_names(pre, d, k)
            ctx.check(len(many) == k and len(set(many)) == k, "several-distinct", f"{[m.name for m in many]}")
            ctx.check(all(m.name not in there and m.parent == d for m in many), "several-fresh", f"{[m.name for m in many]} with {sorted(there)}")
            ctx.state(mask, p.name == learned[0], [m.name[len(base):] for m in many])
            shutil.rmtree(d)
        if fu.get_unique_folder_name(pre, ctx.dir).name == learned[0]:
            break          # otherwise the minute has changed on the way: once more
    if det:
        many = fu.get_multiple_unique_folder_names(pre, ctx.dir, 5)
        ctx.check(len(set(many)) == 5 and not any(m.exists() for m in many), "several-fresh", f"{many}")

def number(s):
    return int(s) if s and all(c in "0123456789" for c in s) else None

def highest(there, prefix, suffix):
    """names of the series with the highest number"""
    best = {}
    for f in there:
        if f.startswith(prefix) and f.endswith(suffix) and len(f) >= len(prefix) + len(suffix):
            k = number(f[len(prefix):len(f) - len(suffix)])
            if k is not None:
                best.setdefault(k, []).append(f)
    return best[max(best)] if best else None

EARLY = [("f_2", 2), ("f_10", 10), ("sig_5", 5), ("sig_50", 50), ("a1", 1), ("a_1", 1), ("a.b_3", 3), ("2", 2), ("f_1_7", 7)]
def earlier(there, stem, idx):
    """(files of the series with a lower index, any later file)"""
    low, high = [], False
    for f in there:
        s = Path(f).stem
        if s.startswith(stem):
            k = number(s[len(stem):])
            if k is not None:
                if k < idx: low.append(f)
                high = high or k > idx
    return sorted(low), high

def run_lookup(ctx, case):
    files = [LISTS[case["listing"]][i] for i in case["keep"]]
    n = len(files)
    d = ctx.dir / "d"; d.mkdir()
    there = set()
    for g in range(1 << n):
        gray = g ^ (g >> 1)      # one file changes at a time
        want = {files[i] for i in range(n) if gray >> i & 1}
        for f in want - there: (d / f).write_text("x")
        for f in there - want: (d / f).unlink()
        there = want
        for prefix, suffix in LOOK:
            ctx.step()
            got = fu.get_highest_numbered_file(d, prefix, suffix)
            exp = highest(there, prefix, suffix)
            ctx.check((got is None) if exp is None else (got is not None and got.parent == d and got.name in exp), "highest", f"{prefix}*{suffix} in {sorted(there)}: {got and got.name}, expected {exp}")
        for name, idx in EARLY:
            for incl in (True, False):
                ctx.step()
                stem = name[:-len(str(idx))]
                asked = name if incl else stem.rstrip("_")
                stem = stem if incl else asked + "_"
                low, high = earlier(there, stem, idx)
                for strict in (True, False):
                    try:
                        got = sorted(f.name for f in fu.find_all_earlier_files(d, asked, idx, name_includes_idx=incl, error_if_future_files_exist=strict))
                    except ValueError:
                        got = "error"
                    ctx.check(got == ("error" if strict and high else low), "earlier", f"{asked} {idx} incl={incl} strict={strict} in {sorted(there)}: {got}, expected {low} future={high}")
        ctx.state(case["listing"], sorted(there))

def run_index(ctx, case):
    for n in range(0, case["n"]):
        for rest in itertools.product("a_019", repeat=n):
            name = case["first"] + "".join(rest)
            k = len(name) - len(name.rstrip("0123456789"))
            digits = name[len(name) - k:] if k else ""
            if len(digits) > 1 and digits[0] == "0":
                want = int(digits)
                try:
                    got = fu.find_index_in_name(name)
                except AssertionError:
                    got = want           # padded numbers may be refused
            else:
                want = int(digits) if digits else None
                got = fu.find_index_in_name(name)
            ctx.step()
            ctx.check(got == want, "index", f"{name}: {got}, expected {want}")
            ctx.state(name, got)

def run_setups(ctx, case):
    """set-ups which write into the same folder, some folders removed in between"""
    from aspsim.simulator import SimulatorSetup
    made = []
    for i, remove in enumerate(case["pre"] + [0]):
        setup = SimulatorSetup(ctx.dir)
        sk.base_config(setup, dict(tot=3, buf=5, chunk=5, plot_output=case["plot"]))
        setup.add_controllable_source("l", np.zeros((1, 3))); setup.add_mics("m", np.ones((1, 3)))
        setup.set_path("l", "m", np.ones((1, 1, 2)))
        before = set(ctx.dir.iterdir())
        sim = setup.create_simulator()
        ctx.step()
        if case["plot"] == "none":
            ctx.check(sim.folder_path is None and set(ctx.dir.iterdir()) == before, "none", "a folder although nothing is plotted")
            continue
        ctx.check(sim.folder_path not in before and set(ctx.dir.iterdir()) == before | {sim.folder_path}, "setup-fresh", f"{sim.folder_path} with {before}")
        made.append(sim.folder_path)
        if remove:
            shutil.rmtree(made[0]) if made[0].exists() else None
    ctx.state(case["plot"], len(made))
