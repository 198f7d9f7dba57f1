#!/opt/venv/bin/python
"""Validate planted bugs in private mount namespaces.
usage: plant.py [--tests] [--nocheck] ID...      results: /tmp/plant/results/ID.json"""
import json, os, shutil, subprocess, sys, re
R = "/tmp/plant"
def sh(cmd, **k):
    return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, **k)
def blame_ok(patch):
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    f = None; n_orig = 0; bad = 0
    for l in open(patch):
        if l.startswith("--- a/"): f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m: ln = int(m.group(1)); continue
        if l.startswith("---") or l.startswith("+++") or f is None or l.startswith("diff") or l.startswith("index"): continue
        if l.startswith("-"):
            b = sh(f"git -C /repo blame -l -L{ln},{ln} HEAD -- {f}").stdout.split()[0].lstrip("^")
            if base.startswith(b): n_orig += 1
            else: bad += 1
            ln += 1
        elif l.startswith(" "): ln += 1
    return n_orig, bad
def one(i, tests, check):
    sd = f"/verif/seeded/{i}"; w = f"{R}/{i}"
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w + "/work"); os.makedirs(R + "/results", exist_ok=True)
    prop = json.load(open(sd + "/meta.json"))["property"]
    sh(f"cp -a /repo {w}/repo; mkdir {w}/verif {w}/demo; cd /verif && cp -a check checks mc tools known_findings.txt properties.jsonl MANIFEST.json {w}/verif/; cp {sd}/* {w}/demo/; rm -f {w}/demo/patch.diff {w}/demo/meta.json")
    ns = f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && mount --bind {w}/work /opt/vp/work && cd /repo && "
    un = lambda c, t=900: sh(f"timeout {t} unshare -m bash -c '{ns}{c}'")
    res = {"id": i, "property": prop}
    p = un(f"bash {w}/demo/demo.sh", 300); res["demo_clean"] = p.returncode
    if p.returncode: res["demo_clean_out"] = (p.stdout + p.stderr)[-1500:]
    res["apply"] = sh(f"git -C {w}/repo apply {sd}/patch.diff").returncode
    res["orig_lines"], res["own_lines"] = blame_ok(sd + "/patch.diff")
    p = un("bash /opt/vp/build.sh"); res["build"] = p.returncode
    p = un(f"bash {w}/demo/demo.sh", 300); res["demo_patched"] = p.returncode; res["demo_out"] = (p.stdout + p.stderr)[-400:]
    if check:
        p = un(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check {prop}")
        res["check"] = p.returncode; v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        res["caught"] = p.returncode == 1 and any(f"property={prop} " in l for l in v)
        res["check_out"] = (p.stdout[:600] + p.stderr[-600:]) 
    if tests:
        p = un(f"bash /opt/vp/test.sh {w}/work/out.json >{w}/test.log 2>&1; /opt/venv/bin/python /verif/tools/stable.py {w}/work/out.json")
        res["tests"] = p.stdout.strip().splitlines()[-1:] 
        res["tests_out"] = p.stdout[-600:]
    shutil.rmtree(w, ignore_errors=True)
    old = {}
    rp = f"{R}/results/{i}.json"
    if os.path.exists(rp): old = json.load(open(rp))
    old.update(res); json.dump(old, open(rp, "w"), indent=1)
    print(i, prop, "clean", res["demo_clean"], "apply", res["apply"], "orig", res["orig_lines"], res["own_lines"], "build", res["build"], "demo", res["demo_patched"], "CAUGHT" if res.get("caught") else ("missed rc=%s" % res.get("check")), res.get("tests", ""), flush=True)
a = sys.argv[1:]
tests = "--tests" in a; check = "--nocheck" not in a
for i in [x for x in a if not x.startswith("--")]: one(i, tests, check)
