"""Write properties.jsonl and MANIFEST.json from sa/registry.py (claimed: properties whose rules all exist)."""
import ast
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import registry as R  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rules_of(spec):
    p = os.path.join(ROOT, "sa", "specs", spec + ".py")
    if not os.path.exists(p):
        return set()
    return {n.name for n in ast.parse(open(p).read()).body if isinstance(n, ast.FunctionDef)}


have = {}
lines, checks, na = [], [], []
for pid, p in sorted(R.PROPERTIES.items()):
    lines.append(json.dumps({
        "id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}}, ensure_ascii=False))
    if p["na"]:
        na.append({"property": pid, "reason": " ".join(p["na"].split())})
        continue
    ok = p["rules"] and all(r[1] in have.setdefault(r[0], rules_of(r[0])) for r in p["rules"])
    if not ok:
        na.append({"property": pid, "reason": "no check yet"})
        print("unclaimed", pid)
        continue
    checks.append({
        "property": pid, "quick_cmd": f"python3 -m sa.run {pid} --tier quick", "thorough_cmd": f"python3 -m sa.run {pid} --tier thorough",
        "technique": "path-sensitive abstract interpretation of the source AST against a reference semantics (static, no solver): " + p["about"],
        "level": "other",
        "level_note": p["level_note"] or (
            "Every trace partition of the rule is decided from the source; holds for all values and names (terms), all value kinds, and all sequence lengths up to the cutoff "
            "(raised around every length literal of the code). Trusts the models of Python built-ins and of the antlr4 runtime, and the cutoff argument in DESIGN.md.")})
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 -m sa.selftest", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed,", len(na), "not applicable")
design = os.path.join(ROOT, "DESIGN.md")
text = open(design).read()
head, rest = text.split("<!-- properties -->\n", 1)
tail = rest.split("<!-- /properties -->\n", 1)[1]
out = []
for pid, p in sorted(R.PROPERTIES.items()):
    if p["na"]:
        out.append(f"* **{pid} {p['title']}** - not applicable: {' '.join(p['na'].split())}")
        continue
    rules = ", ".join("%s.%s%s" % (r[0], r[1], (" " + " ".join(f"{k}={v}" for k, v in r[2].items())) if len(r) > 2 else "") for r in p["rules"])
    out.append(f"* **{pid} {p['title']}** - {p['about']}. Quantified over: {p['quant'].rstrip('.')}. Beyond tests: {p['why'].rstrip('.')}. Rules: {rules}.")
open(design, "w").write(head + "<!-- properties -->\n" + "\n".join(out) + "\n<!-- /properties -->\n" + tail)
