#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
TV = "TLA+ specification, TLC: recorded executions of the real library are validated as behaviours of the specification"
NOTE = ("TLC accepts every recorded execution as a behaviour of the specification (exact in a finite field, within the type's "
        "rounding otherwise) - evidence for the executions explored, not a proof for all inputs. Trusted: the harness's recording "
        "of the library's public state, TLC, and the big-rational override.")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        m = props.META.get(i, {})
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": m.get("technique", TV), "level": "model_checking", "level_note": m.get("note", NOTE)})
    else:
        na.append({"property": i, "reason": props.NA.get(i, "no check yet: its machinery is still being built")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: everything is observed through the public interface. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
