"""One definition of the properties; writes properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.dirname(HERE)
P = []


def prop(id, title, statement, over, q, why, files, mech, state=(), observe=(), technique="", note="", level="exploration"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, state=state, observe=observe, technique=technique, note=note, level=level))


GM = "src/GDTFManager.cpp"
SX = "src/SceneDataExchange.cpp"
exec(open(os.path.join(HERE, "props_list.py")).read())

with open(os.path.join(OUT, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                              observe_at=list(p["observe"]), hook_needed=False))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks, na = [], []
for p in sorted(P, key=lambda p: p["id"]):
    c = "checks/%s.py" % p["id"]
    if not os.path.exists(os.path.join(OUT, c)):
        raise SystemExit("no check for " + p["id"])
    checks.append(dict(property=p["id"], quick_cmd="python3 " + c, thorough_cmd="VERIF_TIER=thorough python3 " + c, technique=p["technique"], level=p["level"], level_note=p["note"]))
with open(os.path.join(OUT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks")
