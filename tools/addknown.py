"""addknown.py PROP KEY TEXT: record a known finding."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
d["findings"] = [f for f in d["findings"] if f["key"] != sys.argv[2]] + [{"property": sys.argv[1], "key": sys.argv[2], "status": "known", "text": sys.argv[3]}]
open(p, "w").write('{"findings": [\n' + ",\n".join(" " + json.dumps(f) for f in d["findings"]) + "\n]}\n")
