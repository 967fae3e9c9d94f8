"""Writes properties.jsonl and MANIFEST.json from lib/props.py."""
import json, os
from props import PROPS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {None: "TLA+ specification checked with TLC; traces of the real code, driven by random and by TLC-generated scenarios, judged by TLC against it",
        "parallel": "TLA+ specification (timers and channels included) checked with TLC; timed traces of the real code judged by TLC against it",
        "race": "TLA+ specification checked with TLC; traces of concurrent operations of the real code, built with the race detector, judged by TLC against it",
        "cli": "TLA+ specification checked with TLC; invocations of the real command judged by TLC against it"}


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS: f.write(json.dumps(p.jsonl(), ensure_ascii=False) + "\n")
    checks = []
    for p in PROPS:
        note = ("The specification is explicit (spec/*.tla) and its laws are checked with TLC within the bounds in DESIGN.md; the code is bound to it by "
                "conformance of recorded traces, which decides exactly the histories that are generated (seeded), not all of them. Trusted: TLC, the "
                "driver's encoding of values, and the reading of the documentation that the specification writes down.")
        checks.append({"property": p.id, "quick_cmd": "python3 check.py " + p.id, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p.id,
                       "technique": TECH[p.special], "level": "model_checking", "level_note": (p.note + " " if p.note else "") + note})
    json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": [],
               "notes": "No hooks in /repo are needed: everything is observed through the public API, the exported console writers and the command line."},
              open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__": main()
