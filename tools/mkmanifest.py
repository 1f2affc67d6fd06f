"""Writes MANIFEST.json: a check for every property that is claimed, a reason for every other one."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import checks  # noqa: E402

TECH = "gated value-flow analysis of the source, compared in normal form with reference definitions"
NOTE = ("Covers all paths and all inputs of the analysed functions (no inputs are chosen, nothing is executed). "
        "Trusts the engine's model of Python built-ins and the reference definitions in sa/specs; an obligation the "
        "engine cannot interpret is recorded as undecided in the evidence and raises no alarm.")
NA = {
    'C36': "whether the media decodes identically is a property of codec payloads and of a decoder, not of this source; "
           "C08, C23 and C25 decide the byte-level part",
    'C37': "xlink replacement edits the serialised manifest as text by string search; which string it finds depends on "
           "the manifest content at run time",
}
TODO = "the static check for this property is not finished"


def main():
    for m in checks.MODULES:
        __import__("sa.checks." + m)
    with open(os.path.join(HERE, "properties.jsonl")) as fh:
        props = [json.loads(x)['id'] for x in fh]
    out = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
    for pid in props:
        if pid in checks.REGISTRY:
            cmd = "python3 -m sa.run %s " % pid
            out["checks"].append({
                "property": pid, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                "technique": checks.TECHNIQUE.get(pid, TECH), "level": "other", "level_note": NOTE})
        else:
            out["not_applicable"].append({"property": pid, "reason": NA.get(pid, TODO)})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(out, fh, indent=1)
        fh.write("\n")


main()
