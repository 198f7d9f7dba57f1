"""C13: an interrupted session save never damages later simulations."""
import dataclasses as dc, itertools, os, shutil, sys
import numpy as np
from pathlib import Path
import aspsim.configutil as configutil
from mc import simkit as sk, boot
from checks import c12
PROP = "C13"
TECH = "crash-point enumeration on the real code: every file-system operation of a simulation that writes result and session folders is a crash point (as a hard kill and as an exception), every file is torn at the enumerated lengths, pairs of crashes; each state is recovered from by later simulations and compared with an undisturbed run"
BOUND = dict(quick="5 histories before the crash; all crash points, hard and as exception; torn config.yaml at every byte, followed by the same and in turn by one of two other configurations, and also by simulations whose configuration is what the torn file says, completed by defaults or zeros, torn pickle at 160 lengths incl. the first and last 40, other files at 5; all ordered pairs of crash points on one history",
             thorough="torn config.yaml and pickle at every byte on every history, all ordered pairs of crash points on every history, torn + crash pairs")
CHUNK = 1
HISTORIES = [[], ["base"], ["micpos"], ["micpos", "base"], []]
CRASHINGS = ["base", "base", "base", "base", "wide"]
RELEVANT = ["samplerate", "c", "room_size", "room_center", "rt60", "max_room_ir_length", "randomized_ism", "extra_delay", "highpass_cutoff"]

_hook = dict(on=False, root=None, snaps=None, stop=None, n=0)
class Crash(BaseException):
    pass

def tree(root):
    out = {}
    for p in sorted(Path(root).rglob("*")):
        out[str(p.relative_to(root))] = None if p.is_dir() else p.read_bytes()
    return out

def put(root, snap):
    shutil.rmtree(root, ignore_errors=True)
    Path(root).mkdir(parents=True)
    for rel, data in snap.items():
        p = Path(root) / rel
        if data is None:
            p.mkdir(parents=True, exist_ok=True)
        else:
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(data)

def audit(event, args):
    if not _hook["on"] or event not in ("open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.truncate", "os.link", "os.symlink"):
        return
    try:
        path = os.path.abspath(os.fspath(args[0]))
    except TypeError:
        return
    if isinstance(path, bytes) or not path.startswith(_hook["root"]):
        return
    if event == "open":
        mode, flags = args[1], args[2]
        if not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)) and not (isinstance(mode, str) and any(c in mode for c in "wax+")):
            return
    _hook["on"] = False
    try:
        if _hook["stop"] is not None and _hook["n"] == _hook["stop"]:
            _hook["n"] += 1
            raise Crash()
        _hook["n"] += 1
        if _hook["snaps"] is not None:
            _hook["snaps"].append((f"{event}:{os.path.relpath(path, _hook['root'])}", tree(_hook["root"])))
    finally:
        _hook["on"] = True
_installed = False

def simulate(ctx, root, v):
    """one simulation using root/figs and root/sess"""
    np.random.seed(11)
    v, override = v if isinstance(v, tuple) else (v, None)
    return c12.observe(c12.build(ctx, "ism", v, Path(root) / "sess", Path(root) / "figs", override), yaml_c=False)

def completions(text, cut, zero):
    """the configuration a reader could make of the first cut characters: complete lines and the torn value as they are, everything missing is shipped default or zero"""
    import yaml
    full, default = yaml.safe_load(text), dc.asdict(configutil.load_default_config())
    try:
        have = yaml.safe_load(text[:cut])
    except Exception:
        have = yaml.safe_load(text[:text.rfind("\n", 0, cut) + 1])
    have = {k: x for k, x in (have if isinstance(have, dict) else {}).items() if type(x) is type(full.get(k))}
    out = {}
    for k in RELEVANT:
        d = default[k]
        v = have.get(k, d if not zero or k == "room_size" else type(d)(0) if not isinstance(d, list) else [0.0] * 3)
        if k in ("samplerate", "c", "max_room_ir_length") and v < (1 if k != "samplerate" else 900): v = default[k]
        if k == "max_room_ir_length": v = min(v, 40)
        if k == "rt60": v = v if k in have and v == full["rt60"] else 0.0
        if isinstance(v, list): v = ([x for x in v if isinstance(x, (int, float))] + [float(x) for x in default[k]])[:3]
        out[k] = v
    if out["room_size"] != full["room_size"] or out["room_center"] != full["room_center"]:
        out["room_size"] = [max(float(x), low + 2 * abs(c)) for x, low, c in zip(out["room_size"], (4.0, 3.5, 2.5), out["room_center"])]
    return ("base", out)

def watch(ctx, root, v, stop=None):
    """simulate while logging the file operations; stop: raise at this operation"""
    global _installed
    if not _installed:
        sys.addaudithook(audit); _installed = True
    _hook.update(on=True, root=str(root), snaps=[] if stop is None else None, stop=stop, n=0)
    try:
        simulate(ctx, root, v)
    except Crash:
        pass
    finally:
        _hook["on"] = False
    return _hook["snaps"]

def cases(tier, seed):
    full = tier == "thorough"
    for h in range(len(HISTORIES)):
        if CRASHINGS[h] == "wide":
            for part in range(24):
                yield dict(hist=h, kind="torn", file="config", part=part, parts=24, every=full)
            continue
        for part in range(4):
            yield dict(hist=h, kind="points", part=part, parts=4)
            yield dict(hist=h, kind="exceptions", part=part, parts=4)
        n = 24 if full else 12
        if full or h in (0, 2):
            for f in ("config", "pickle", "other"):
                for part in range(n if f != "other" else 1):
                    yield dict(hist=h, kind="torn", file=f, part=part, parts=n if f != "other" else 1, every=full)
        if full or h == 2:
            for part in range(16):
                yield dict(hist=h, kind="pairs", part=part, parts=16)
        yield dict(hist=h, kind="foreign")

def run_case(ctx, case):
    boot.FIGS.clear()
    root = ctx.dir / "root"
    (root / "sess").mkdir(parents=True); (root / "figs").mkdir()
    hist = HISTORIES[case["hist"]]
    for v in hist:
        simulate(ctx, root, v)
    start = tree(root)
    ref = {}
    def reference(v):
        key = (ctx.seed, str(v))
        if key not in REF:
            other = ctx.dir / "ref"
            shutil.rmtree(other, ignore_errors=True)
            (other / "sess").mkdir(parents=True); (other / "figs").mkdir()
            REF[key] = simulate(ctx, other, v)
        return REF[key]
    old = {k: v for k, v in start.items() if v is not None}
    def recover(label, extra=(), later=("base", "micpos", "center"), again=True):
        """later simulations in the folders left behind"""
        if CRASHINGS[case["hist"]] == "wide" and not case["every"]:
            later, again = ("base",), False
        for v in (*extra, *later):
            n0 = {p.name for p in (root / "sess").iterdir()}
            try:
                got = simulate(ctx, root, v)
            except Exception as e:
                ctx.fail("later-simulation-fails", f"after {label}: a simulation of {v!r} raised {type(e).__name__}: {e}")
                continue
            want = reference(v)
            for k in want:
                ctx.check(sk.same(got[k], want[k], 1e-6), "later-differs-" + k, lambda: f"after {label}, simulation {v!r}: {c12.diff(got[k], want[k])}")
            if v in hist:
                ctx.check({p.name for p in (root / "sess").iterdir()} == n0, "earlier-session-unusable", f"after {label}: the complete session of {v!r} was not used")
            ctx.step()
        now = tree(root)
        ctx.check(all(now.get(k) == d for k, d in old.items()), "earlier-files-changed", lambda: f"after {label}: {[k for k, d in old.items() if now.get(k) != d]}")
        if again:
            # a further simulation finds complete sessions for all of them
            n0 = {p.name for p in (root / "sess").iterdir()}
            simulate(ctx, root, later[-1])
            ctx.check({p.name for p in (root / "sess").iterdir()} == n0, "session-not-repaired", f"after {label}: a later session is not found again")
        ctx.state(case["hist"], label); ctx.trace()
    if case["kind"] == "foreign":
        sess = root / "sess"
        for i, make in enumerate([lambda: (sess / "notes.txt").write_text("x"), lambda: (sess / "empty").mkdir(), lambda: ((sess / "a_other").mkdir(), (sess / "a_other" / "config.yaml").write_text("a: 1\n")),
                     lambda: ((sess / "b_other").mkdir(), (sess / "b_other" / "config.yaml").write_text("[1, 2")), lambda: (root / "figs" / "figs_x").write_text("x"),
                     lambda: ((sess / "c_other").mkdir(), (sess / "c_other" / "arrays.pickle").write_bytes(b"")), lambda: (sess / "session_zz").mkdir()]):
            put(root, start)
            make()
            recover(f"foreign entry {i}")
        return
    snaps = watch(ctx, root, CRASHINGS[case["hist"]])
    end = tree(root)
    put(root, start)
    k = list(range(len(snaps)))[case["part"]::case["parts"]] if case["kind"] in ("points", "exceptions", "pairs") else []
    if case["kind"] == "points":
        for i in k:
            put(root, snaps[i][1])
            recover(f"kill before {snaps[i][0]}")
    elif case["kind"] == "exceptions":
        for i in k:
            put(root, start)
            watch(ctx, root, CRASHINGS[case["hist"]], stop=i)
            recover(f"exception at {snaps[i][0]}")
    elif case["kind"] == "pairs":
        for i in k:
            put(root, snaps[i][1])
            second = watch(ctx, root, "center" if i % 2 else CRASHINGS[case["hist"]])
            for j, (op, snap) in enumerate(second):
                put(root, snap)
                recover(f"kill before {snaps[i][0]} and then before {op}")
    elif case["kind"] == "torn":
        new = [f for f in end if end[f] is not None and f not in start]
        pick = {"config": lambda f: f.endswith("config.yaml"), "pickle": lambda f: f.endswith(".pickle"), "other": lambda f: not f.endswith(("config.yaml", ".pickle"))}[case["file"]]
        for f in [f for f in new if pick(f)]:
            if case["file"] == "config" and not f.startswith("sess") and not case["every"]:
                cuts = [0, 1, len(end[f]) // 2]
            else:
                cuts = cut_points(len(end[f]), case["file"], case["every"])
            # the other files: as they are when this one is being written, and as at the end of the run
            first = next((i for i, (op, s) in enumerate(snaps) if f in s), len(snaps) - 1)
            for c in cuts[case["part"]::case["parts"]]:
                for when in ((snaps[first][1], end) if c % 5 == 0 else (end,)):
                    put(root, {**when, f: end[f][:c]})
                    extra = []
                    if case["file"] == "config" and f.startswith("sess") and when is end and (case["every"] or CRASHINGS[case["hist"]] == "wide"):
                        text = end[f].decode()
                        extra = [completions(text, c, bool(c % 2))] + ([completions(text, c, not c % 2)] if case["every"] else [])
                    # quick: every byte, in turn followed by another of the configurations, and mostly without the second visit
                    few = {} if case["every"] else dict(later=("base", ("micpos", "center")[c // 2 % 2]), again=c % 6 == 0)
                    recover(f"{f} torn at {c} of {len(end[f])}", extra, **few)
REF = {}

def cut_points(n, what, every):
    if every and what in ("config", "pickle"):
        return list(range(n))
    if what == "config":
        return list(range(n))
    if what == "pickle":
        return sorted(set(list(range(40)) + list(range(n - 40, n)) + [int(x) for x in np.linspace(40, n - 41, 80)]))
    return sorted({0, 1, n // 3, n // 2, n - 1})
