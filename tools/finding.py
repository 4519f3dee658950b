"""finding.py PROP COMMIT TEXT: records a fixed finding."""
import json, os, sys
prop, commit, what = sys.argv[1:4]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + "/known-findings.jsonl", "a") as f:
    f.write(json.dumps({"property": prop, "status": "fixed", "commit": commit, "what": what,
                        "line": "fixed: property=%s %s %s" % (prop, commit, what)}) + "\n")
