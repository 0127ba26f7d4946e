"""Single source of properties.jsonl and MANIFEST.json (python -m mc.registry)."""
import json
import os

from mc.props_text import PROPS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            anchors = {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                "state": [
                    {"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", [])
                ],
                "observe_at": p["observe_at"],
                "hook_needed": None,
            }
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["qtext"]},
                        "why_tests_cant": p["why"],
                        "anchors": anchors,
                    }
                )
                + "\n"
            )
            assert len(p["title"]) <= 80, p["id"]
    checks = []
    for p in PROPS:
        if p.get("na"):
            continue
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": "bash check.sh %s --quick" % p["id"],
                "thorough_cmd": "bash check.sh %s --thorough" % p["id"],
                "technique": p["technique"],
                "level": "model_checking",
                "level_note": p["level_note"],
            }
        )
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": [
            {"property": p["id"], "reason": p["na"]} for p in PROPS if p.get("na")
        ],
        "notes": "Pure-Python harness: nothing is built; every check imports pfrl from "
        "/repo's working tree in a fresh process and enumerates a bounded space on the "
        "real code. No hooks in /repo are needed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
