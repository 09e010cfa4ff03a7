"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vmc.registry import REGISTRY  # noqa

L = "lenstronomy/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level="model_checking", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[L + f for f in files],
                  mech=[dict(name=n, where=L + w) for n, w in mech], technique=technique, level=level, note=note))


prop("P01", "Parameter vector and model parameters are faithful encodings of each other",
     "For every model and constraint configuration, decoding a parameter vector and encoding the result gives the vector back, each published parameter name and limit belongs to exactly one vector entry, and every free parameter is sampled while no fixed, linked or solver-determined one is. The decoded model parameters carry fixed values unchanged, satisfy every declared link, log-sampling and scaling relation, and depend on the vector only, not on vectors decoded earlier. Neither the vector nor the configuration passed in is modified.",
     ["configurations", "inputs", "histories"],
     "all registered lens/light/point-source models, all single fixings, all pairs of joint constraints, linear solver on/off, all pairs of special-parameter options, two vectors per configuration decoded in alternating order",
     "the configuration space is combinatorial: an index shift or a dropped link appears only for a particular pair of options, and unit tests sample a handful of configurations",
     ["Sampling/parameters.py", "Sampling/param_group.py", "Sampling/special_param.py", "LensModel/lens_param.py", "LightModel/light_param.py", "PointSource/point_source_param.py"],
     [("encode/decode", "Sampling/parameters.py"), ("per-profile encode/decode", "LensModel/lens_param.py"), ("special parameters", "Sampling/special_param.py")],
     "exhaustive enumeration of configurations on the real encoder/decoder against an index-free reference derived from the configuration")

prop("P02", "Fitting state is exactly what the history of steps says",
     "After any sequence of settings edits, value edits, band freezing, restarts and optimisation steps, the current parameter state, fixed values, limits, widths and options equal what applying those steps one by one to the initial configuration gives; restart restores the initial values. An optimisation step never moves a fixed parameter, leaves the bounds or ends with a lower likelihood than its start, and a sampling step adopts its most likely sample. The caller's configuration, the steps passed in and results returned earlier are never modified.",
     ["histories"], "all sequences of up to three (four) steps over 22 edits and over 9 optimisation/edit steps",
     "aliasing between the initial state, the current state and fixed values only shows in particular orders of edits; tests run one or two fixed sequences",
     ["Workflow/fitting_sequence.py", "Workflow/update_manager.py", "Workflow/multi_band_manager.py"],
     [("state machine", "Workflow/update_manager.py"), ("band freezing", "Workflow/multi_band_manager.py"), ("step dispatch", "Workflow/fitting_sequence.py")],
     "explicit-state enumeration of all edit histories to a depth, real object compared step by step with a reference state machine")

exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in REGISTRY:
            checks.append(dict(property=p["id"], quick_cmd="bash /verif/check.sh %s quick" % p["id"],
                               thorough_cmd="bash /verif/check.sh %s thorough" % p["id"],
                               evidence_file="/verif/evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"],
                               level_note=p["note"] or "exhaustive within: " + REGISTRY[p["id"]]["bounds"]["quick"]))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    man = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="all checks run the real code of /repo under exhaustive enumeration (see DESIGN.md); no hooks in /repo are needed")
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "n/a")


main()
