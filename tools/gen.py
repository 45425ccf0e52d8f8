#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.json-like python definitions in tools/props.py"""
import json, os, sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS  # noqa

with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if not os.path.exists(root + "/checks/%s.py" % p["id"].lower()):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash run.sh %s --tier quick" % p["id"],
        "thorough_cmd": "bash run.sh %s --tier thorough" % p["id"],
        "technique": p["technique"],
        "level": p.get("level", "exploration"),
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "RETURNN_VERIF_DIST_CPU", "enable": "environment variable RETURNN_VERIF_DIST_CPU=1, set by checks/c34.py: the PyTorch engine accepts torch_distributed on CPU (gloo); no rebuild needed",
               "source_commits": ["6f27c91dde1a6684b53abb91ad3af4ad3f86628a"]},
     "notes": "One hook (C34). All other monitors observe public API boundaries, files, audit events and sanitizer reports."}
with open(root + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "n/a")


# ---- DESIGN.md
import ast
import glob


def consts(path):
    """RULE, ASSUMPTIONS, KINDS of a check module, without importing it"""
    out = {}
    tree = ast.parse(open(path).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            name = node.targets[0].id
            if name in ("RULE", "ASSUMPTIONS", "MIN_COUNTS"):
                try:
                    out[name] = ast.literal_eval(node.value)
                except ValueError:
                    pass
            if name == "KINDS" and isinstance(node.value, ast.Dict):
                ks = []
                for k, v in zip(node.value.keys, node.value.values):
                    try:
                        q = {ast.literal_eval(a): ast.literal_eval(b) for a, b in zip(v.keys, v.values) if ast.literal_eval(a) in ("quick", "thorough")}
                    except Exception:
                        q = {}
                    ks.append("%s (%s/%s)" % (ast.literal_eval(k), q.get("quick", "?"), q.get("thorough", "?")))
                out["KINDS"] = ks
    return out


def wrap(text, indent=""):
    import textwrap

    return textwrap.fill(text, 120, initial_indent=indent, subsequent_indent="  " if indent else "", break_long_words=False, break_on_hyphens=False)


doc = [open(root + "/design/head.md").read().rstrip(), "", "## Properties", ""]
for p in PROPS:
    doc.append("### %s %s" % (p["id"], p["title"]))
    doc.append("")
    if p.get("na"):
        doc += ["Not applicable: " + p["na"], ""]
        continue
    c = consts(root + "/checks/%s.py" % p["id"].lower())
    doc.append(wrap("Specified: " + p["statement"]))
    doc.append("")
    doc.append(wrap("- Quantifier: %s. Why tests cannot: %s." % (p["quant"].rstrip("."), p["why"].rstrip(".")), "- ")[2:] if False else wrap("Quantifier: %s. Why tests cannot settle it: %s." % (p["quant"].rstrip("."), p["why"].rstrip(".")), "- "))
    doc.append(wrap("Method: %s. Observed at: %s." % (p["technique"], "; ".join(p["observe"])), "- "))
    if c.get("RULE"):
        doc.append(wrap("Workload and oracle: " + c["RULE"], "- "))
    if c.get("KINDS"):
        doc.append(wrap("Workload kinds (cases quick/thorough): " + ", ".join(c["KINDS"]), "- "))
    if c.get("MIN_COUNTS"):
        doc.append(wrap("Minimum observed, else inconclusive: " + ", ".join("%s %s" % kv for kv in c["MIN_COUNTS"].items()), "- "))
    for a in c.get("ASSUMPTIONS", []):
        doc.append(wrap("Assumption/bound: " + a, "- "))
    doc.append(wrap("Strength: " + p["note"], "- "))
    doc.append("")
doc += ["## Defects found in RETURNN", "", "Known (recorded, not repaired; the check prints KNOWN-FINDING and still reports anything else):", ""]
kf = json.load(open(root + "/known_findings.json"))
kf = kf if isinstance(kf, list) else list(kf.values())[0]
for e in kf:
    if e["status"] == "known":
        doc.append(wrap("%s `%s`: %s" % (e["property"], e["key"], e["what"]), "- "))
doc += ["", "Repaired (one fix: commit each):", ""]
for e in kf:
    if e["status"] != "known":
        doc.append(wrap(e["what"].replace("fixed: property=", ""), "- "))
doc += ["", open(root + "/design/corrections.md").read().rstrip(), "", "## Planted bugs and which checks catch them", ""]
doc.append("| bug | property | needs | caught by its check |")
doc.append("|---|---|---|---|")
res = {}
if os.path.exists(root + "/design/catches.json"):
    res = json.load(open(root + "/design/catches.json"))
for d in sorted(glob.glob(root + "/seeded/*/meta.json") + glob.glob(root + "/mutants/*/meta.json")):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    doc.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/").replace("\n", " "), res.get(b, "?")))
doc += ["", "Mutation runs (tools/mutate.py: random AST mutations in lines the check executes; survivors were read one by one):", ""]
if os.path.exists(root + "/design/mutation.md"):
    doc.append(open(root + "/design/mutation.md").read().rstrip())
    doc.append("")
doc.append(open(root + "/design/tail.md").read().rstrip())
open(root + "/DESIGN.md", "w").write("\n".join(doc) + "\n")
