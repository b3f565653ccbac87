"""Source of properties.jsonl and MANIFEST.json: `python tools/props.py` rewrites both."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, note, technique=None):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _note=note,
        _technique=technique or "property-based testing (Hypothesis) against a reference model",
    ))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks, na = [], []
    for p in P:
        if glob.glob(os.path.join(HERE, "checks", p["id"] + "_*.py")):
            cmd = f"/opt/venv/bin/python run.py {p['id']} --tier "
            checks.append(dict(
                property=p["id"], quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough",
                evidence_file=f"evidence/{p['id']}.json", technique=p["_technique"], level="exploration",
                level_note=p["_note"],
            ))
        else:
            na.append(dict(property=p["id"], reason="its check is not built yet"))
    m = dict(
        version=1, setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0, 'lib'); import pbt, fortuna\"",
        checks=checks, not_applicable=na,
        notes="run.py <id> --replay <file> replays one failing input; known_findings.json lists recorded and fixed defects",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(checks), "checks,", len(na), "not claimed")


if __name__ == "__main__":
    main()
