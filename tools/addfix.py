"""addfix.py HASH=PROP ...: record fix commits of /repo in known_findings.json."""
import json, os, re, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "known_findings.json")
k = json.load(open(p))
for a in sys.argv[1:]:
    h, prop = a.split("=")
    h, m = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h], text=True).strip().split(" ", 1)
    assert m.startswith("fix:"), m
    if any(h in f["text"] for f in k["findings"]):
        continue
    m = m[4:].strip()
    k["findings"].append({"property": prop, "key": re.sub(r"\W+", "_", m)[:40], "status": "fixed", "text": "fixed: property=%s %s %s" % (prop, h, m)})
with open(p, "w") as f:
    f.write('{"findings": [\n' + ",\n".join(" " + json.dumps(x) for x in k["findings"]) + "\n]}\n")
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
t = " ".join(f["text"] for f in k["findings"])
print("unrecorded:", [l for l in log if " fix:" in l and l.split()[0] not in t])
