#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, level="model_checking", na=None, state=(), hook=None):
    P.append(dict(
        p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                            state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=hook)),
        tech=tech, note=note, level=level, na=na))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["p"]["title"]) <= 80, x["p"]["title"]
            f.write(json.dumps(x["p"]) + "\n")
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[],
             notes="Language: TLA+, checked with TLC. spec/ holds the specification, lib/ and harness/ the binding. "
                   "No hooks in /repo: the code is compiled from /repo's working tree against stand-ins for the libraries absent here.")
    for x in P:
        i = x["p"]["id"]
        if x["na"]:
            m["not_applicable"].append(dict(property=i, reason=x["na"]))
        else:
            m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="python3 run.py %s --thorough" % i,
                                    evidence_file="evidence/%s.json" % i, technique=x["tech"], level=x["level"], level_note=x["note"]))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
