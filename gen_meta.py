#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in meta/."""
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from dst import registry  # noqa
from meta import properties as P  # noqa

TECH = "deterministic simulation with fault injection: seeded schedule/fault search, "


def main():
    rows, checks, na = [], [], []
    for p in P.PROPERTIES:
        row = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(p["title"]) <= 80, p["id"]
        rows.append(row)
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        assert p["id"] in registry.PROPS, p["id"]
        checks.append({
            "property": p["id"],
            "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": TECH + p["tech"],
            "level": "exploration",
            "level_note": p["note"],
        })
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "hooks": {"guard": "IPP_DST (unused: every seam is installed from /verif at run time; no hook commits)",
                  "enable": "nothing to enable: the checks import ipyparallel from /repo's working tree",
                  "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks: check.py + dst/ (simulation kernel, transport, deployment, scenarios, oracles). "
                 "fix: commits in /repo and known findings are listed in known_findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(rows), "properties,", len(checks), "checks,", len(na), "not applicable")


main()
