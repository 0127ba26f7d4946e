"""Regenerate the per-property section of DESIGN.md from the modules' own text."""
import importlib
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc.props_text import PROPS  # noqa

B, E = "<!-- BEGIN PROPERTIES (tools/design.py) -->", "<!-- END PROPERTIES -->"


def one(p):
    m = importlib.import_module("mc.props." + p["id"].lower())
    doc = " ".join((m.__doc__ or "").split())
    doc = re.sub(r"^P\d+\s*", "", doc)
    out = ["### %s — %s\n" % (p["id"], p["title"])]
    out.append("* **What is checked.** %s" % p["statement"])
    out.append("* **How.** %s. %s" % (p["technique"][0].upper() + p["technique"][1:], doc))
    out.append("* **Cases.** %s" % m.RULE)
    out.append("* **Bounds, quick.** %s" % m.BOUNDS["quick"])
    out.append("* **Bounds, thorough.** %s" % m.BOUNDS["thorough"])
    a = getattr(m, "ASSUMPTIONS", None)
    if a:
        out.append("* **Assumptions.** %s" % "; ".join(a))
    out.append("* **Limits.** %s" % p["level_note"])
    out.append("* **Why tests cannot settle it.** %s." % p["why"].rstrip("."))
    return "\n".join(out) + "\n"


def main():
    f = os.path.join(V, "DESIGN.md")
    s = open(f).read()
    i, j = s.index(B), s.index(E)
    s = s[: i + len(B)] + "\n\n" + "\n".join(one(p) for p in PROPS) + "\n" + s[j:]
    fixes = re.findall(r"^fixed: property=(P\d+) (\w+) (.*)$", open(os.path.join(V, "KNOWN_FINDINGS.jsonl")).read(), re.M)
    s = put(s, "FIXES", "\n".join("* `%s` (%s): %s" % (b, a, c) for a, b, c in fixes))
    rows = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    res = {}
    rf = os.path.join(V, "tools", "seed_results.json")
    if os.path.exists(rf):
        res = json.load(open(rf))
    sd = os.path.join(V, "seeded")
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], res.get(d, "?")))
    s = put(s, "SEEDS", "\n".join(rows))
    open(f, "w").write(s)


def put(s, tag, body):
    b, e = "<!-- BEGIN %s -->" % tag, "<!-- END %s -->" % tag
    return s[: s.index(b) + len(b)] + "\n" + body + "\n" + s[s.index(e) :]


main()
