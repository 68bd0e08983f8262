"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "TLA+ specification: TLC model checking, TLC trace validation of recorded executions, replay of TLC-generated behaviours on the real code",
        "level": "model_checking",
        "level_note": "The property is checked by TLC on the specification, exhaustively within the constants listed in the evidence; the code is bound to it by validating recorded executions (seeded workloads and specification-generated behaviours) against the specification, so what is claimed of the code beyond those executions rests on them being representative. Trusts TLC, the harness's recording, and Rust std's Unicode tables.",
    } for i in ids],
    "not_applicable": [],
    "notes": "No hooks in /repo: the public API exposes all the state the specification talks about.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
