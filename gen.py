#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
with open(f"{V}/properties.jsonl", "w") as f:
    for i, p in sorted({**PROPS, **{k: v for k, v in NOT_APPLICABLE.items()}}.items()):
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p.get("observe", ["the files of the repository", "what restore and check make of it"]), hook_needed=None))) + "\n")
LEVEL = "whole-program symbolic execution of the LLVM IR of /repo (harness, backpak and its dependencies, std) within stated bounds, z3 deciding every branch and assertion over symbolic inputs; counterexamples are replayed on the native build. Bounds: "
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="none", enable="no hooks: the checks drive /repo's public library interface", source_commits=[]),
         checks=[dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough", technique="symbolic execution of compiled code (LLVM IR) with an SMT solver (z3)",
                      level="model_checking", level_note=LEVEL + p["bounds"]) for i, p in sorted(PROPS.items())],
         not_applicable=[dict(property=i, reason=p["reason"]) for i, p in sorted(NOT_APPLICABLE.items())],
         notes="See DESIGN.md.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
