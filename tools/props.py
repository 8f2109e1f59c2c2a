"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PT = "pyvbmc/parameter_transformer/parameter_transformer.py"
FL = "pyvbmc/function_logger/function_logger.py"
VP = "pyvbmc/variational_posterior/variational_posterior.py"
VO = "pyvbmc/vbmc/variational_optimization.py"
VB = "pyvbmc/vbmc/vbmc.py"
AS = "pyvbmc/vbmc/active_sample.py"
TECH = ("contract-based deductive verification of the real code: the functions' source is executed symbolically "
        "(module ASTs rewritten on every run, see DESIGN.md), every postcondition discharged by a normaliser + z3; "
        "the same contracts are also evaluated at run time on the real code as a replay oracle")
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, level="proof", note="", state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  observe=observe, level=level, note=note, state=list(state)))


REAL = "arithmetic over the reals (rounding not modelled; the run-time evaluation of the same contracts covers doubles on sampled inputs); "
exec(open(os.path.join(V, "tools", "proplist.py")).read())
exec(open(os.path.join(V, "tools", "proplist2.py")).read())
NA = []
exec(open(os.path.join(V, "tools", "nalist.py")).read())

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P + NA:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=[dict(name=a, meaning=b) for a, b in p["state"]],
                             mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]], observe_at=p["observe"], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
    for p in P:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python check.py {p['id']} quick",
                                thorough_cmd=f"/opt/venv/bin/python check.py {p['id']} thorough",
                                evidence_file=f"evidence/{p['id']}.json", technique=TECH, level=p["level"], level_note=p["note"]))
    for p in NA:
        m["not_applicable"].append(dict(property=p["id"], reason=p["reason"]))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "claimed,", len(NA), "not applicable")
