"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), state=(), observe=(), note="", technique=None):
    P.append(dict(d=dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                         anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state], mechanism=[dict(name=n, where=w) for n, w in mech],
                                      observe_at=list(observe), hook_needed=None)), note=note, technique=technique))


TECH = "symbolic execution of the real Python/PyTorch code on SMT terms; z3 decides each claim over all inputs within the bounds; counterexamples replayed on the real code"
N = "neuralcompression/"
F = N + "functional/"

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["d"]["title"]) <= 80, p["d"]["title"]
            f.write(json.dumps(p["d"]) + "\n")
    na = {n["property"] for n in NA}
    checks = []
    for p in P:
        i = p["d"]["id"]
        if i in na:
            continue
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i, technique=p["technique"] or TECH, level="model_checking",
                           level_note=p["note"] or "bounded: every value within the stated sizes; floats as reals unless stated, PyTorch kernels encoded by the engine and validated by concrete replay"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NA)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
