#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS, TECHNIQUE  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl")) if x.strip()]
    checks, rest = [], []
    for p in props:
        if p in CHECKS:
            level = CHECKS[p][0]
            technique, note = TECHNIQUE[p]
            checks.append({
                "property": p,
                "quick_cmd": "VERIF_TIER=quick ./check " + p,
                "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": technique,
                "level": level,
                "level_note": note,
            })
        else:
            rest.append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
    m = {
        "version": 1,
        "setup_cmd": "./check --setup",
        "hooks": {"guard": "none", "enable": "no hooks: the harness uses the public API only and is built into the module"
                                             " with go build -overlay", "source_commits": []},
        "checks": checks,
        "not_applicable": rest,
        "notes": "TLA+ (TLC). spec/ holds the specification, harness/ the drivers of the real code, lib/ the orchestration,"
                 " known-findings.txt the findings. See DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
