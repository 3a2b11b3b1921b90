"""Writes DESIGN.md: tools/design/*.md plus what the check modules, findings and planted bugs say."""
import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
D = V / "tools" / "design"
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
manifest = {x["property"]: x for x in json.loads((V / "MANIFEST.json").read_text())["checks"]}


def consts(pid):
    out, bounds = {}, ""
    for node in ast.parse((V / "mc" / "checks" / f"{pid.lower()}.py").read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


notes = {}
for block in ("\n" + (D / "properties.md").read_text()).split("\n## ")[1:]:
    pid, _, text = block.partition("\n")
    notes[pid.strip()] = text.strip()
text = [(D / "head.md").read_text().strip(), "", "## Properties and how each is decided", ""]
for p in props:
    pid = p["id"]
    text += [f"### {pid} {p['title']}", ""]
    if pid not in manifest:
        text += ["Not claimed, see MANIFEST.json.", ""]
        continue
    c = consts(pid)
    text += [
        f"*Level*: {c['LEVEL']}. *Explored*: {c['RULE']}.",
        "",
        "*Assumes*: " + "; ".join(c["ASSUMPTIONS"]) + ".",
        "",
        notes.get(pid, ""),
        "",
        f"*Beyond the tests*: {p['why_tests_cant']}",
        "",
    ]
text += ["## Defects found", ""]
for line in (V / "known_findings.txt").read_text().splitlines():
    if line.startswith(("fixed:", "finding:")):
        text.append("- " + line.replace("property=", ""))
text += ["", (D / "tail.md").read_text().strip(), "", "## Planted bugs and the checks that catch them", ""]
catches = json.loads((D / "catches.json").read_text()) if (D / "catches.json").exists() else {}
text += ["| bug | property | needs | caught by the quick check |", "|---|---|---|---|"]
for m in sorted((V / "seeded").glob("*/meta.json")):
    meta = json.loads(m.read_text())
    got = catches.get(m.parent.name, "?")
    text.append(f"| {m.parent.name} | {meta['property']} | {meta['needs'].replace('|', '/')} | {got} |")
(V / "DESIGN.md").write_text("\n".join(text).rstrip() + "\n")
print("DESIGN.md", len(text), "lines")
