"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the checks that exist."""
import ast
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props  # noqa: E402


def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def main():
    mods = {}
    for p in glob.glob(os.path.join(ROOT, "checks", "p*.py")):
        c = consts(p)
        mods[c["PROPERTY"]] = c
    lines, checks, na = [], [], []
    for p in props.P:
        q = {k: v for k, v in p.items() if not k.startswith("_")}
        if len(q["title"]) > 80:
            raise SystemExit(f"title too long: {q['id']}")
        lines.append(json.dumps(q))
        if p["id"] in mods:
            m = mods[p["id"]]
            checks.append(dict(
                property=p["id"],
                quick_cmd=f"./check.sh {p['id']} --tier quick",
                thorough_cmd=f"./check.sh {p['id']} --tier thorough",
                evidence_file=f"evidence/{p['id']}.json",
                technique=m.get("TECHNIQUE", "bounded exhaustive exploration of the real implementation against an executable reference model"),
                level="model_checking",
                level_note=("Every case of a finite, stated space is executed on the code in /repo and compared with an independent reference; "
                            "nothing is sampled. Space: " + m["RULE"] + (" Assumes: " + "; ".join(m.get("ASSUMPTIONS", [])) + "." if m.get("ASSUMPTIONS") else "")),
            ))
        else:
            na.append(dict(property=p["id"], reason=props.NA.get(p["id"], "check not built yet")))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="See DESIGN.md. No hooks in /repo; the checks import /repo/src directly.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
