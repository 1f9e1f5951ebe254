#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
NOTE = "Decided for every input within the bounds, by symbolic execution of the LLVM IR rustc emits for the real crates: {b}. Outside: {o}. Trusts rustc's lowering, our executor symx (checked each run by replaying path models and every counterexample natively), Z3 and the reference model."
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(props.VERIF, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "cd /verif/symx && cargo build --release --locked --offline --target-dir /verif/work/symx", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.P:
        p = props.get(i)
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 bin/{p.get('script', 'check.py ' + i)} quick", "thorough_cmd": f"python3 bin/{p.get('script', 'check.py ' + i)} thorough",
            "technique": p.get("technique", "symbolic execution of the real code's LLVM IR with Z3"), "level": "model_checking",
            "level_note": NOTE.format(b=p["bounds"], o=p["outside"])})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(props.VERIF, "MANIFEST.json"), "w"), indent=1)
