#!/opt/venv/bin/python
"""Systematic mutation of /repo/src, to find behaviour which no check looks at (development tool, no check uses it).
  mutate.py cover OUT        which lines each check executes -> OUT/cover.json
  mutate.py run OUT [FILE..] all mutants of the files; results OUT/res/*.json   (env BUDGET = seconds per check and mutant)
  mutate.py list OUT         surviving mutants"""
import warnings; warnings.simplefilter("ignore")
import ast, json, os, pathlib, subprocess, sys, time, hashlib, shutil, concurrent.futures as cf
ROOT = pathlib.Path(__file__).resolve().parent.parent
SRC = pathlib.Path("/repo/src/aspsim")
ENV = dict(os.environ, PYTHONPATH=f"{ROOT}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", NUMBA_DISABLE_JIT="1",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1", NUMEXPR_MAX_THREADS="1")
CHECKS = sorted(p.stem for p in (ROOT / "checks").glob("c[0-9][0-9].py"))

WORKER = r'''
import sys, os, json, random, time, importlib
mode, checks, budget = sys.argv[1], sys.argv[2].split(","), float(sys.argv[3])
from mc import boot, core
core.CASE_TIMEOUT = 90
cov = set()
if mode == "cover":
    mon = sys.monitoring; mon.use_tool_id(3, "cov")
    def line(code, n):
        if "/aspsim/" in code.co_filename: cov.add((code.co_filename.split("/aspsim/", 1)[1], n))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
try:
    boot.close()
except BaseException as e:
    print(json.dumps(dict(killed="import", msg=str(e)[:200]))); os._exit(0)
import resource
out = {}
core._limit()
for c in checks:
    mod = importlib.import_module("checks." + c)
    known = core.known_findings(mod.PROP)
    try:
        cs = [json.loads(json.dumps(x)) for x in mod.cases("quick", 1)]
    except Exception as e:
        print(json.dumps(dict(killed=c, msg="cases " + str(e)[:200]))); os._exit(0)
    n = len(cs)
    first = cs[:1]
    random.Random(5).shuffle(cs)
    cs = first + cs
    if mode == "cover": mon.set_events(3, mon.events.LINE); mon.restart_events(); cov.clear()
    t = time.time(); k = 0
    for case in cs:
        ctx = core.run_one(mod, case, 1, "quick")
        k += 1
        bad = [v for v in ctx.violations if core.finding_key(case, v[0]) not in known]
        if bad:
            print(json.dumps(dict(killed=c, msg=str(bad[0])[:300], n=k))); os._exit(0)
        if time.time() - t > budget: break
    out[c] = [k, n, round(time.time() - t, 1)]
    if mode == "cover":
        mon.set_events(3, 0)
        print(json.dumps(dict(lines=sorted(cov), stat=out[c]))); os._exit(0)
print(json.dumps(dict(killed=None, stat=out))); os._exit(0)
'''

def worker(mode, checks, budget, src, timeout):
    d = pathlib.Path(f"/tmp/mut/w{os.getpid()}_{time.time_ns()}"); d.mkdir(parents=True)
    env = dict(ENV, MC_REPO_SRC=str(src), MC_SCRATCH=str(d), MPLCONFIGDIR=str(d / "mpl"), NUMBA_CACHE_DIR=str(d / "nb"))
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-c", WORKER, mode, ",".join(checks), str(budget)], env=env, cwd=d, capture_output=True, text=True, timeout=timeout)
        try:
            return json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            return dict(killed="crash", msg=p.stderr[-300:])
    except subprocess.TimeoutExpired:
        return dict(killed="timeout", msg="")
    finally:
        shutil.rmtree(d, ignore_errors=True)

CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["*"], ast.Mod: ["//"], ast.Pow: ["*"]}
NAMES = {"floor": "ceil", "ceil": "floor", "max": "min", "min": "max", "any": "all", "all": "any", "zeros": "ones", "sin": "cos", "cos": "sin", "argmax": "argmin", "argmin": "argmax", "maximum": "minimum", "minimum": "maximum", "concatenate": "flip", "sum": "max", "mean": "sum", "cumsum": "sort", "append": "clear", "extend": "append"}

def mutants(path):
    text = path.read_text(); tree = ast.parse(text)
    raw = text.encode(); lines = [0]
    for l in raw.splitlines(keepends=True): lines.append(lines[-1] + len(l))
    def span(n): return lines[n.lineno - 1] + n.col_offset, lines[n.end_lineno - 1] + n.end_col_offset
    def seg(n): a, b = span(n); return raw[a:b].decode()
    out = []
    def put(n, new, what, a=None, b=None):
        if a is None: a, b = span(n)
        out.append((n.lineno, what, raw[:a] + new.encode() + raw[b:]))
    doc = set()
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n): par[c] = n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): doc.add(n.body[0])
    def inside(n, types):
        while n in par:
            n = par[n]
            if isinstance(n, types): return True
        return False
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt) and (n in doc or not inside(n, (ast.FunctionDef,))): continue
        if not isinstance(n, ast.stmt) and not inside(n, ast.FunctionDef): continue
        if inside(n, (ast.Raise, ast.Assert, ast.JoinedStr)) or isinstance(n, (ast.Raise, ast.Assert)): continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                put(n, f"{seg(n.left)} {o} {seg(n.comparators[0])}", f"{seg(n)} -> {o}")
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                put(n, f"({seg(n.left)} {o} {seg(n.right)})", f"{seg(n)} -> {o}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, f"({seg(n.operand)})", f"{seg(n)} -> without {type(n.op).__name__}")
        elif isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + w.join(f"({seg(v)})" for v in n.values) + ")", f"{seg(n)} ->{w}")
            for i in range(len(n.values)):
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({seg(v)})" for j, v in enumerate(n.values) if j != i) + ")", f"{seg(n)} -> drop {i}")
        elif isinstance(n, ast.Constant) and not inside(n, ast.arguments):
            if n.value is True or n.value is False: put(n, str(not n.value), f"L{n.col_offset} {n.value} -> not")
            elif isinstance(n.value, int):
                put(n, f"({n.value}+1)", f"col{n.col_offset} {n.value} -> +1")
                if n.value: put(n, f"({n.value}-1)", f"col{n.col_offset} {n.value} -> -1")
            elif isinstance(n.value, float): put(n, f"({n.value}*1.5+0.1)", f"col{n.col_offset} {n.value} -> *1.5+.1")
        elif isinstance(n, ast.Constant) and inside(n, ast.arguments) and isinstance(n.value, (bool, int, float)):
            put(n, str(not n.value) if isinstance(n.value, bool) else f"({n.value}+1)", f"default {n.value} changed")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, f"(not ({seg(n.test)}))", f"if {seg(n.test)} -> not")
        elif isinstance(n, ast.Call):
            f = seg(n.func); last = f.split(".")[-1]
            if last in ("copy", "deepcopy", "tolist", "sorted", "list", "array", "flip", "abs", "sqrt", "conj", "real", "squeeze", "round", "int", "float", "tuple", "str") and len(n.args) == 1: put(n, f"({seg(n.args[0])})", f"{seg(n)} -> arg")
            if last == "copy" and not n.args and isinstance(n.func, ast.Attribute): put(n, f"({seg(n.func.value)})", f"{seg(n)} -> no copy")
            if last in NAMES:
                a, b = span(n.func); put(n, NAMES[last], f"{seg(n)[:60]} -> {NAMES[last]}", b - len(last), b)
            if last == "range" and n.args:
                put(n.args[-1] if len(n.args) < 3 else n.args[1], f"({seg(n.args[-1] if len(n.args) < 3 else n.args[1])})-1", f"{seg(n)} -> one less")
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    put(n, f"{f}(" + ", ".join([seg(a) for a in n.args] + [(f"{q.arg}={seg(q.value)}" if q.arg else f"**{seg(q.value)}") for q in n.keywords if q is not k]) + ")", f"{seg(n)[:80]} -> without {k.arg}")
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                put(n, f"{f}({seg(n.args[1])}, {seg(n.args[0])})", f"{seg(n)[:80]} -> swapped")
        elif isinstance(n, ast.AugAssign):
            if isinstance(n.op, (ast.Add, ast.Sub)):
                put(n, f"{seg(n.target)} = {seg(n.value)}", f"{seg(n)} -> =")
        elif isinstance(n, ast.Slice):
            for part in ("lower", "upper"):
                v = getattr(n, part)
                if v is not None: put(v, f"({seg(v)})+1", f"slice {seg(n)} {part}+1")
        elif isinstance(n, (ast.Continue, ast.Break)): put(n, "pass", f"{seg(n)} -> pass")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and n not in doc and not isinstance(getattr(n, "value", None), (ast.Yield, ast.YieldFrom)):
            put(n, "pass", f"{seg(n)[:80]} -> deleted")
    seen, res = set(), []
    for ln, what, new in out:
        h = hashlib.sha1(new).hexdigest()[:10]
        if h in seen or new == raw: continue
        seen.add(h)
        try: compile(new, "x", "exec")
        except SyntaxError: continue
        res.append((h, ln, what, new))
    return res

def main():
    mode, out = sys.argv[1], pathlib.Path(sys.argv[2]); (out / "res").mkdir(parents=True, exist_ok=True)
    nproc = int(os.environ.get("NPROC", "8")); budget = float(os.environ.get("BUDGET", "8"))
    if mode == "cover":
        with cf.ThreadPoolExecutor(nproc) as ex:
            r = dict(zip(CHECKS, ex.map(lambda c: worker("cover", [c], budget, "/repo/src", 900), CHECKS)))
        for c, v in r.items():
            print(c, v.get("stat"), len(v.get("lines", [])), v.get("killed"), v.get("msg"))
        (out / "cover.json").write_text(json.dumps(r))
    elif mode == "run":
        cover = json.loads((out / "cover.json").read_text())
        by = {}
        for c, v in cover.items():
            for f, l in v["lines"]: by.setdefault((f, l), []).append(c)
        size = {c: len(v["lines"]) for c, v in cover.items()}
        jobs = []
        for f in (sys.argv[3:] or [str(p.relative_to(SRC)) for p in sorted(SRC.rglob("*.py"))]):
            tree = ast.parse((SRC / f).read_text())
            stm = {}
            for n in ast.walk(tree):
                if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    e = n.body[0].lineno - 1 if hasattr(n, "body") and n.body else n.end_lineno
                    for l in range(n.lineno, max(e, n.lineno) + 1): stm.setdefault(l, set()).update(range(n.lineno, max(e, n.lineno) + 1))
            for h, ln, what, new in mutants(SRC / f):
                cs = set()
                for l in stm.get(ln, {ln}): cs.update(by.get((f, l), []))
                jobs.append((f, h, ln, what, new, sorted(cs, key=lambda c: size[c])))
        print(len(jobs), "mutants", sum(not j[5] for j in jobs), "not executed", flush=True)
        def do(j):
            f, h, ln, what, new, cs = j
            rp = out / "res" / f"{h}.json"
            if rp.exists() and not json.loads(rp.read_text()).get("again"): return
            if not cs: r = dict(killed=None, stat="not executed")
            else:
                d = pathlib.Path(f"/tmp/mut/src_{h}"); shutil.rmtree(d, ignore_errors=True)
                shutil.copytree("/repo/src", d, ignore=shutil.ignore_patterns("__pycache__")); (d / "aspsim" / f).write_bytes(new)
                r = worker("run", cs, budget, d, 120 + len(cs) * (budget + 60)); shutil.rmtree(d, ignore_errors=True)
            rp.write_text(json.dumps(dict(file=f, line=ln, what=what, checks=cs, **r)))
        if os.environ.get("RETRY"):      # only what survived there, with another budget
            old = [json.loads(p.read_text()) for p in (pathlib.Path(os.environ["RETRY"]) / "res").glob("*.json")]
            keep = {(r["file"], r["what"]): [] for r in old}
            for r in old:
                if r["killed"] is None and r.get("stat") != "not executed": keep[r["file"], r["what"]].append(r["line"])
            jobs = [j for j in jobs if any(abs(l - j[2]) <= 6 for l in keep.get((j[0], j[3]), []))]
            print(len(jobs), "to retry", flush=True)
        t = time.time()
        import random; random.Random(1).shuffle(jobs)
        with cf.ThreadPoolExecutor(nproc) as ex:
            for i, _ in enumerate(ex.map(do, jobs)):
                if i % 50 == 0: print(i, round(time.time() - t), flush=True)
    elif mode == "list":
        for p in sorted((json.loads(p.read_text()) | {"h": p.stem} for p in (out / "res").glob("*.json")), key=lambda r: (r["file"], r["line"])):
            if p["killed"] is None: print(p["h"], f"{p['file']}:{p['line']}", p["what"].replace("\n", " ")[:150], "" if p.get("stat") != "not executed" else "NOT EXECUTED")
main()
