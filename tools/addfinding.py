"""addfinding.py <property> <key> <commit|-> <what>"""
import json, sys
pid, key, commit, what = sys.argv[1:5]
d = json.load(open("/verif/known_findings.json"))
k = [k for k in d if isinstance(d[k], list)][0]
e = {"property": pid, "key": key, "status": "fixed" if commit != "-" else "known"}
if commit != "-":
    e["commit"] = commit
    what = f"fixed: property={pid} {commit} {what}"
e["what"] = what
d[k].append(e)
json.dump(d, open("/verif/known_findings.json", "w"), indent=1)
