"""Explorer core: runs every case of a check, collects states/transitions/traces, writes evidence and replay files."""
import concurrent.futures as cf, contextlib, hashlib, io, json, multiprocessing as mp, os, resource, shutil, signal, sys, time, traceback, zlib
import numpy as np
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
SCRATCH = Path(os.environ.get("MC_SCRATCH", "/tmp"))
CASE_TIMEOUT = 180

class CaseTimeout(BaseException):
    pass

class StopCase(Exception):
    pass

class Ctx:
    def __init__(self, prop, case, seed, tier):
        self.prop, self.case, self.seed, self.tier = prop, case, seed, tier
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.violations = []      # (key, message)
        self._dir = None
    # --- bookkeeping -----------------------------------------------------------------------------------
    def step(self, n=1):
        self.transitions += int(n)
    def trace(self, n=1):
        self.traces += n
    def state(self, *things):
        self.states.add(_hash(things))
    def states_of(self, arr):
        """one state per column (sample) of an observed signal array; states are identified by value and index"""
        arr = np.round(np.asarray(arr, dtype=float), 7) + 0.0
        for i in range(arr.shape[-1]):
            self.states.add(zlib.crc32(arr[..., i].tobytes()) * 1000003 + i)
    # --- verdicts --------------------------------------------------------------------------------------
    def fail(self, key, msg=""):
        self.violations.append((key, str(msg)[:1500]))
    def check(self, cond, key, msg=""):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
            return False
        return True
    def close(self, got, want, key, msg="", tol=1e-8):
        """got equals want up to rounding (nan marks a missing value and must agree)"""
        got = np.asarray(got); want = np.asarray(want)
        if got.shape != want.shape:
            self.fail(key, f"{msg}: shape {got.shape}, expected {want.shape}")
            return False
        if got.dtype.kind in "OUS" or want.dtype.kind in "OUS":
            ok = bool(np.all(got == want)); bad = got != want
        else:
            gn, wn = np.isnan(got), np.isnan(want)
            scale = max(1.0, float(np.max(np.abs(want[~wn & np.isfinite(want)]), initial=0.0)))
            with np.errstate(all="ignore"):
                bad = (gn != wn) | (~gn & ~wn & ~((got == want) | (np.abs(got - want) <= tol * scale)))
            ok = not bad.any()
        if not ok:
            i = tuple(int(v) for v in np.argwhere(bad)[0]) if bad.ndim else ()
            self.fail(key, f"{msg}: first difference at index {i}: got {got[i]!r}, expected {want[i]!r} ({int(np.sum(bad))} differ)")
        return ok
    # --- resources -------------------------------------------------------------------------------------
    def rng(self, *label):
        return np.random.default_rng([self.seed & 0xffffffff, zlib.crc32(repr(label).encode())])
    @property
    def dir(self):
        """an empty scratch directory of this case"""
        if self._dir is None:
            self._dir = SCRATCH / f"w{os.getpid()}"
            if self._dir.exists():
                shutil.rmtree(self._dir)
            self._dir.mkdir(parents=True)
        return self._dir
    def done(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

def _hash(things):
    h = hashlib.blake2b(digest_size=8)
    def feed(t):
        if isinstance(t, np.ndarray):
            if t.dtype.kind in "fc":
                t = np.round(t, 7) + 0.0
            h.update(str(t.shape).encode()); h.update(np.ascontiguousarray(t).tobytes() if t.dtype != object else repr(t).encode())
        elif isinstance(t, (list, tuple)):
            h.update(b"(")
            for u in t: feed(u)
            h.update(b")")
        elif isinstance(t, float):
            h.update(repr(round(t, 7)).encode())
        else:
            h.update(repr(t).encode())
    feed(things)
    return int.from_bytes(h.digest(), "big")

def _on_alarm(sig, frm):
    raise CaseTimeout()

def where(exc):
    """innermost frame inside the code under test, for the violation key"""
    fr = [f for f in traceback.extract_tb(exc.__traceback__) if "/repo/" in f.filename or "aspsim" in f.filename.split("/")]
    return f"{Path(fr[-1].filename).name}:{fr[-1].name}" if fr else "harness"

def run_one(mod, case, seed, tier):
    """explores one case. Where the check declares that it does not look at figures they are not drawn; whatever it then finds is confirmed with figures"""
    light = getattr(mod, "LIGHT", False)
    if light:
        from mc import simkit
        simkit.light()
    ctx = _run(mod, case, seed, tier)
    if light and ctx.violations:
        simkit.unlight()
        ctx = _run(mod, case, seed, tier)
    return ctx

def _run(mod, case, seed, tier):
    ctx = Ctx(mod.PROP, case, seed, tier)
    np.random.seed((seed * 7919 + 17) % 2**32)
    import random; random.seed(seed)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)      # processor time, so that a busy machine does not matter
    signal.alarm(3 * CASE_TIMEOUT)
    cwd = os.getcwd()
    try:
        with contextlib.redirect_stdout(_Null()), contextlib.redirect_stderr(_Null()):
            mod.run_case(ctx, case)
    except StopCase:
        pass
    except CaseTimeout:
        ctx.fail("hang", f"no answer within {CASE_TIMEOUT} s")
    except MemoryError as e:
        ctx.fail(f"memory@{where(e)}", "the case needs gigabytes of memory")
    except Exception as e:
        tb = "".join(traceback.format_exception(e))[-1200:]
        ctx.fail(f"exception:{type(e).__name__}@{where(e)}", tb)
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
        ctx.done()
    return ctx

class _Null(io.TextIOBase):
    def write(self, s): return len(s)

def _limit():
    """a case may use 3 GB more than the explorer itself; beyond that it ends with a MemoryError"""
    used = int(Path("/proc/self/statm").read_text().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (used + (3 << 30), resource.getrlimit(resource.RLIMIT_AS)[1]))

_MOD = _SEED = _TIER = None
def _work(chunk):
    out = dict(n=0, transitions=0, traces=0, states=set(), bad=[], slow=(0, None))
    for i, case in chunk:
        t = time.time()
        ctx = run_one(_MOD, case, _SEED, _TIER)
        out["slow"] = max(out["slow"], (round(time.time() - t, 1), i), key=lambda v: v[0])
        out["n"] += 1
        out["transitions"] += ctx.transitions
        out["traces"] += ctx.traces
        out["states"] |= ctx.states
        for key, msg in ctx.violations:
            out["bad"].append((i, case, key, msg))
        if len(out["bad"]) > 50:
            break
    return out

def known_findings(prop):
    out = {}
    f = ROOT / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("known:"):
                head, _, desc = line.partition("::")
                kv = dict(p.split("=", 1) for p in head.split()[1:] if "=" in p)
                if kv.get("property") == prop:
                    out[kv["key"]] = desc.strip()
    return out

def finding_key(case, key):
    """identifies a violation: the kind of failure and the exact case"""
    return f"{key}@{hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]}"

def run_check(mod, tier, seed, procs=None, limit_violations=20):
    global _MOD, _SEED, _TIER
    _MOD, _SEED, _TIER = mod, seed, tier
    t0 = time.time()
    cases = [(i, json.loads(json.dumps(c))) for i, c in enumerate(mod.cases(tier, seed))]
    procs = procs or min(8, os.cpu_count() or 1)
    per = getattr(mod, "CHUNK", None) or max(1, min(25, len(cases) // (procs * 6) or 1))
    chunks = [cases[i:i + per] for i in range(0, len(cases), per)]
    tot = dict(n=0, transitions=0, traces=0, states=set(), bad=[], slow=(0, None))
    complete = True
    # an executor (not a Pool): it notices a worker that was killed and raises, so that a check never waits for ever
    with cf.ProcessPoolExecutor(procs, mp_context=mp.get_context("fork"), initializer=_limit) as pool:
        futures = [pool.submit(_work, c) for c in chunks]
        for f in futures:
            out = f.result()
            for k in ("n", "transitions", "traces"):
                tot[k] += out[k]
            tot["states"] |= out["states"]
            tot["slow"] = max(tot["slow"], out["slow"], key=lambda v: v[0])
            tot["bad"] += out["bad"]
            if len({b[0] for b in tot["bad"]}) >= limit_violations:
                complete = False
                break
        workers = list((pool._processes or {}).values())
        if not complete:
            pool.shutdown(wait=False, cancel_futures=True)
            for p in workers:
                p.kill()
    known = known_findings(mod.PROP)
    new, seen_known = [], {}
    for i, case, key, msg in sorted(tot["bad"], key=lambda b: b[0]):
        fk = finding_key(case, key)
        hit = next((k for k in known if k == fk), None)
        if hit is not None:
            seen_known[hit] = known[hit]
        else:
            new.append((case, key, msg, fk))
    for k, d in seen_known.items():
        print(f"KNOWN-FINDING: property={mod.PROP} {d} [{k}]")
    if new:
        (ROOT / "replays").mkdir(exist_ok=True)
        shown = set()
        for case, key, msg, fk in new:
            if key in shown or len(shown) >= 5:
                continue
            shown.add(key)
            path = ROOT / "replays" / f"{mod.PROP}-{fk.split('@')[-1]}.json"
            path.write_text(json.dumps(dict(property=mod.PROP, seed=seed, tier=tier, case=case, key=key, finding=fk, message=msg), indent=1))
            print(f"VIOLATION property={mod.PROP} replay={path}")
            print(f"  {key}: {msg.splitlines()[-1] if key.startswith('exception') else msg}"[:600])
            print(f"  case: {json.dumps(case)[:600]}")
    k = max(1, len(cases) // 4)
    samples = [c for _, c in cases[::k][:5]]
    (ROOT / "evidence").mkdir(exist_ok=True)
    ev = dict(property=mod.PROP, tier=tier, seed=seed, level="model_checking",
        coverage=dict(states=len(tot["states"]), transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
                      cases=tot["n"], cases_in_space=len(cases), exhaustive=bool(complete and tot["n"] == len(cases)), samples=samples,
                      bound=mod.BOUND[tier] if isinstance(getattr(mod, "BOUND", ""), dict) else getattr(mod, "BOUND", "")),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON, wall_s=round(time.time() - t0, 2), slowest_case_s=tot["slow"][0], violations=len(new))
    (ROOT / "evidence" / f"{mod.PROP}.json").write_text(json.dumps(ev, indent=1) + "\n")
    print(f"{mod.PROP} {tier}: cases {tot['n']}/{len(cases)} transitions {tot['transitions']} states {len(tot['states'])} "
          f"traces {tot['traces']} violations {len(new)} wall {time.time()-t0:.1f}s (slowest case {tot['slow'][0]} s)")
    return 1 if new else 0
COMMON = ["numba code interpreted (JIT disabled); same source, validated by JIT-enabled traces in C01",
          "signal values are generic reals: equality on them decides equality of the linear maps"]
