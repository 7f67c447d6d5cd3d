#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and specs.py"""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
import specs, props
ids = sorted(props.PROPS)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i in ids:
        f.write(json.dumps(props.PROPS[i]) + "\n")
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[dict(property=p, reason=r) for p, r in sorted(props.NOT_APPLICABLE.items())])
for i in ids:
    if i in props.NOT_APPLICABLE:
        continue
    s = specs.SPECS[i]
    b = "; ".join(r["h"] + ": " + r["bound"] for r in s["runs"] if r["tier"] == "q" and r["bound"])
    m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough", evidence_file=f"evidence/{i}.json",
        technique="symbolic execution of the LLVM IR compiled from /repo (own executor), path feasibility and assertions decided by Z3 (bit-vectors) and complete byte-domain tables",
        level="model_checking", level_note=("bounded: " + b)[:1500]))
m["hooks"] = dict(guard="linkspace_verif cfg", enable="rustflags --cfg linkspace_verif (harness/ipcbus/.cargo/config.toml)", source_commits=["21e4313"])
m.update(props.MANIFEST_EXTRA if hasattr(props, "MANIFEST_EXTRA") else {})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for i in ids: jsonschema.validate(props.PROPS[i], ps)
print(len(ids), "properties,", len(m["checks"]), "checks")
