#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []
TRUST = ("Trusts TLC, the FHDL-to-C simulator lib/fastsim.py (cross-checked against migen's own simulator by "
         "lib/selftest.py) and the harness that records the rows; ")


def P(id, title, statement, over, text, why, files, mech, observe, technique, note, level="model_checking",
      state=(), hook=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why,
                      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=w) for a, b, w in state],
                                   mechanism=[dict(name=a, where=w) for a, w in mech],
                                   observe_at=observe, hook_needed=hook)))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CHECKS.append(dict(property=id, quick_cmd="./check " + id, thorough_cmd="VERIF_TIER=thorough ./check " + id,
                           evidence_file="evidence/%s.json" % id, technique=technique, level=level,
                           level_note=note))


exec(open(os.path.join(V, "tools", "props.py")).read())

assert len({p["id"] for p in PROPS}) == len(PROPS)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./setup.sh",
                   hooks=dict(guard="(none)", enable="no hooks: the checks only observe public ports of the modules", source_commits=[]),
                   checks=CHECKS, not_applicable=NA,
                   notes="TLA+ checked with TLC; see DESIGN.md. Every check is ./check <id>; VERIF_TIER selects the tier."),
              f, indent=1)
    f.write("\n")
print(len(PROPS), "properties", len(CHECKS), "claimed")
