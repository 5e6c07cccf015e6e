"""Regenerates MANIFEST.json from the property list and the check modules present."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    f = V / "gm" / "checks" / f"{p['id'].lower()}.py"
    if f.exists():
        src = f.read_text()
        m = re.search(r'^TECHNIQUE = \(?"(.*?)"\)?$', src, re.M)
        doc = src.split('"""')[1].strip().replace("\n", " ")
        checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                           technique=m.group(1) if m else "runtime monitoring: reference-model oracle over executions of the real library",
                           level="exploration", level_note=doc[:600]))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed;", [x["property"] for x in na])
