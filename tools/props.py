"""The source of properties.jsonl and MANIFEST.json: run it after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mechanism, over=("inputs",), observe=(), technique=None, note=None):
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier={"over": list(over), "text": text}, why_tests_cant=why,
                   anchors={"files": files,
                            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                            "observe_at": list(observe), "hook_needed": None}),
              technique, note))


exec(open(os.path.join(HERE, "tools", "props_list.py")).read())


def main():
    assert len({p[0]["id"] for p in P}) == len(P)
    for p, t, n in P:
        assert len(p["title"]) <= 80, p["title"]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, t, n in sorted(P, key=lambda x: x[0]["id"]):
            f.write(json.dumps(p)+"\n")
    checks = []
    for p, t, n in sorted(P, key=lambda x: x[0]["id"]):
        i = p["id"]
        assert os.path.exists(os.path.join(HERE, "checks", i+".py")), i
        assert t and n, i
        checks.append({"property": i, "quick_cmd": "./check.sh %s --tier quick" % i,
                       "thorough_cmd": "./check.sh %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "property-based testing (Hypothesis): "+t, "level": "exploration",
                       "level_note": n})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": []}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
