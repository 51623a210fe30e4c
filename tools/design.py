"""Writes DESIGN.md from tools/spec.py, tools/design_text.py, the modules in vp/props, known_findings.json and seeded/*."""
import ast, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import spec
from design_text import HEAD, WHY, NOTES, TAIL, CAUGHT


def consts(i):
    """RULE, ASSUME and the sub-checks of a module, read without importing it."""
    t = ast.parse(open(os.path.join(H, "vp", "props", i + ".py")).read())
    out = {"SUBS": []}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUME"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Sub":
            a = n.args
            v = [x.value if isinstance(x, ast.Constant) else None for x in a]
            if v[0] is not None:
                out["SUBS"].append("%s (%s quick%s)" % (v[0], v[3] if len(v) > 3 and v[3] is not None else "?", ", %s thorough" % v[4] if len(v) > 4 and v[4] is not None else ""))
    return out


F = json.load(open(os.path.join(H, "known_findings.json")))["findings"]
L = [HEAD.strip(), "", "## Properties", ""]
for p in spec.P:
    c = consts(p["id"])
    L += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
          "- **Quantified over**: " + p["text"] + ".",
          "- **Why the tests cannot settle it**: " + p["why"],
          "- **Decided by**: " + p["technique"] + " (" + p["note"] + ").",
          "- **Generator, oracle, non-triviality rule**: " + c.get("RULE", "see module"),
          "- **Sub-checks** (generated cases): " + "; ".join(c["SUBS"]) + "."]
    if c.get("ASSUME"):
        L.append("- **Assumptions**: " + "; ".join(c["ASSUME"]) + ".")
    if p["id"] in WHY:
        L.append("- **Reach and cost**: " + WHY[p["id"]])
    if p["id"] in NOTES:
        L.append("- **Bounds and exclusions**: " + NOTES[p["id"]])
    fx = [f for f in F if f["property"] == p["id"] and f["status"] == "fixed"]
    kn = [f for f in F if f["property"] == p["id"] and f["status"] == "known"]
    if fx:
        L.append("- **Genuine defects repaired** (%d): " % len(fx) + "; ".join(f["text"].split(" ", 2)[2] for f in fx) + ".")
    if kn:
        L.append("- **Known findings** (recorded, not repaired): " + "; ".join(f["text"] for f in kn) + ".")
    L.append("")
L += ["## Planted bugs", "", "| id | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
S = os.path.join(H, "seeded")
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    L.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], CAUGHT.get(d, m["property"])))
L += ["", TAIL.strip(), ""]
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(L))
print(len(L), "lines")
