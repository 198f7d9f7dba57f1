import argparse, importlib, json, os, sys, traceback
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay"); ap.add_argument("--all", action="store_true"); ap.add_argument("-j", type=int)
    ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    from mc import boot, core
    try:
        boot.close()
    except Exception as e:
        # the code under test cannot even be imported: that is for the build to report, not for a property
        traceback.print_exc()
        return 2
    if a.replay:
        r = json.load(open(a.replay))
        mod = importlib.import_module("checks." + r["property"].lower())
        ctx = core.run_one(mod, r["case"], r["seed"], r["tier"])
        for k, m in ctx.violations:
            print(f"VIOLATION property={r['property']} replay={a.replay}\n  {k}: {m}")
        print("violations:", len(ctx.violations))
        return 1 if ctx.violations else 0
    props = a.prop
    if a.all:
        props = sorted(p.stem.upper() for p in (core.ROOT / "checks").glob("c[0-9][0-9].py"))
    rc = 0
    for p in props:
        mod = importlib.import_module("checks." + p.lower())
        if a.count:
            print(p, sum(1 for _ in mod.cases(a.tier, a.seed))); continue
        rc = max(rc, core.run_check(mod, a.tier, a.seed, a.j))
    return rc
if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc)
