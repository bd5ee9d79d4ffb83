#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, thorough=True, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or ["exit status and output files of the grt command"], hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        P[-1]["_chk"] = dict(property=id, quick_cmd="python3 check.py %s quick" % id, thorough_cmd="python3 check.py %s thorough" % id,
                             technique=technique, level="other", level_note=note)


C = "pygrt/C_extension/"
exec(open(os.path.join(HERE, "tools", "proptable.py"), encoding="utf-8").read())

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0,'sa'); import front; assert front.sources()\"",
         checks=[p["_chk"] for p in P if "_chk" in p], not_applicable=NA,
         notes="All checks are static analyses of /repo's sources: C through clang's LLVM IR (never executed), Python through its syntax tree. One driver: check.py <id> [tier].")
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(m["checks"]), "claimed")
