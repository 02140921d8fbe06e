"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import specs
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    s = specs.SPECS.get(p["id"])
    if not s:
        na.append({"property": p["id"], "reason": "not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": s.get("technique", "runtime monitoring: oracles over the real code under ASan+UBSan and TSan"),
        "level": "exploration",
        "level_note": s.get("note", "Holds on the executions explored (counted in the evidence); nothing is proved beyond them. "
                            "Trusts the compiler sanitizers, the oracles in harness/ and, for the parts that need Fast DDS, the stand-in in stub/."),
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: delays are injected at compiler-inserted coverage points and wrapped pthread calls. See DESIGN.md.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not built")
