#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ model of the wire format checked by TLC; recorded runs of the generated code are traces checked against it"
NOTE = ("Every recorded run of the real generated code (marshal, bit size, unmarshal of generated schemas and values) is judged by TLC "
        "against Codec.tla, an explicit transition system of the wire format written from the language definition; nothing is sampled from the "
        "implementation itself. Bounded: the schemas and values are generated (seeded) plus hand-written boundary families. Trusted: the spec, "
        "TLC, the reflection harness that records the runs. ")
CLAIMED = {}
NOTBUILT = {}


def claim(p, note="", technique=TRACE, level="model_checking", base=NOTE):
    CLAIMED[p] = dict(property=p, quick_cmd="./check " + p, thorough_cmd="VERIF_TIER=thorough ./check " + p,
                      evidence_file="evidence/%s.json" % p, technique=technique, level=level, level_note=(base + note).strip())


exec(open(os.path.join(V, "tools", "claims.py")).read())

ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
man = dict(version=1, setup_cmd="sh tools/setup.sh",
           hooks=dict(guard="none", enable="no hooks: the checks use the public API of the runtime and the generator's command line", source_commits=[]),
           checks=[CLAIMED[i] for i in ids if i in CLAIMED],
           not_applicable=[dict(property=i, reason=NOTBUILT.get(i, "no check built yet")) for i in ids if i not in CLAIMED],
           notes="TLA+ with TLC. See DESIGN.md.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(CLAIMED), "claimed")
