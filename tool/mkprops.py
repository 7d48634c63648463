#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and lib/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import registry

B = "src/gwmodelpp/"
I = "include/gwmodelpp/"
PROPS = []


def P(pid, title, statement, over, text, why, files, mech):
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


exec(open(os.path.join(HERE, "tool", "props_table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert 10 <= len(p["statement"]), p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    pid = p["id"]
    if pid in registry.PROPS:
        r = registry.PROPS[pid]
        checks.append(dict(property=pid, quick_cmd="python3 check.py %s quick" % pid, thorough_cmd="python3 check.py %s thorough" % pid,
                           technique=r.get("technique", registry.TECH), level=r.get("level", "other"), level_note=r.get("note", registry.NOTE)))
    else:
        na.append(dict(property=pid, reason=NOT_APPLICABLE.get(pid, "no check has been built for it yet")))
extra = set(registry.PROPS) - {p["id"] for p in PROPS}
assert not extra, extra
json.dump(dict(version=1, setup_cmd="python3 lib/extract.py --setup", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
