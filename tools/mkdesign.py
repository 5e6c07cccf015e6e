"""Regenerates DESIGN.md from design/head.md, the check modules and design/tail.md."""
import ast, json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
COST = dict(C01=10, C02=10, C03=9, C04=34, C05=12, C06=48, C07=19, C08=15, C09=10, C10=25, C11=38, C12=15, C13=9, C14=32, C15=45, C16=29, C17=53, C18=43, C19=37, C20=18, C21=3, C22=10, C23=7, C24=10, C25=14, C26=5,
            C27=3, C28=4, C29=6, C30=4, C31=20, C32=9, C33=14, C34=24, C35=35)
out = [(V / "design/head.md").read_text()]
for l in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(l)
    t = ast.parse((V / f"gm/checks/{p['id'].lower()}.py").read_text())
    val = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                val[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                if n.targets[0].id == "REQUIRED":
                    val["REQUIRED"] = [x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant) and isinstance(x.value, str) and ":" not in x.value]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Oracle and monitors.* {' '.join(ast.get_docstring(t).split())}\n")
    out.append(f"*Observed per case.* {val['RULE']}\n")
    out.append(f"*Monitors / classes that must be seen.* {', '.join(val.get('REQUIRED', []))}\n")
    out.append(f"*Bounds.* {val['COUNT']['quick']} random cases (plus corpus) quick, {val['COUNT']['thorough']} thorough; about {COST.get(p['id'], '?')} s quick on 8 cores. *Beyond tests:* {p['why_tests_cant']}\n")
out.append((V / "design/tail.md").read_text())
(V / "DESIGN.md").write_text("\n".join(out))
