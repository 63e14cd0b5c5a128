#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from dwv/meta.py."""

import json
from pathlib import Path

from dwv.meta import META

HERE = Path(__file__).resolve().parent
with open(HERE / "properties.jsonl", "w") as f:
    for pid, m in META.items():
        assert len(m["title"]) <= 80, (pid, len(m["title"]))
        f.write(
            json.dumps(
                {
                    "id": pid,
                    "title": m["title"],
                    "statement": m["statement"],
                    "quantifier": {"over": m["over"], "text": m["quant"]},
                    "why_tests_cant": m["why"],
                    "anchors": {"files": m["files"], "mechanism": m["mechanism"]},
                }
            )
            + "\n"
        )
man = {
    "version": 1,
    "setup_cmd": "python3 run.py --selftest",
    "checks": [
        {
            "property": pid,
            "quick_cmd": f"python3 run.py {pid} --tier quick",
            "thorough_cmd": f"python3 run.py {pid} --tier thorough",
            "technique": m["technique"],
            "level": "exploration",
            "level_note": m["note"],
        }
        for pid, m in META.items()
    ],
    "not_applicable": [],
    "notes": "No hooks are needed in the code under test. Every check builds /repo's "
    "current working tree into a scratch directory (see DESIGN.md).",
}
(HERE / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
