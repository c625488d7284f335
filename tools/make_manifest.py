"""Writes MANIFEST.json from the table of checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRACE = "TLA+/TLC: recorded runs of slang are validated against the state machine in spec/SlangMachine.tla"
CHECKS = json.load(open(os.path.join(HERE, "tools", "checks.json")))


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        c = CHECKS.get(p)
        if c is None or "reason" in c:
            na.append({"property": p, "reason": (c or {}).get("reason", "check under construction")})
            continue
        checks.append({
            "property": p,
            "quick_cmd": "python3 checks/%s.py" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": c.get("technique", TRACE),
            "level": "model_checking",
            "level_note": c["note"],
        })
    m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. Every check builds slang from /repo's working tree into /verif/_build (incremental, "
                  "content hashes) and needs only TLC, python3, cmake, ninja and gcc."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
