#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the specs."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from specs import SPECS
NA = {
 "C36": "BLS12-381 pairing arithmetic and SHA-256 come from external crates (miracl_core_bls12381, sha2), not from this repository; 381-bit field arithmetic and preimage questions are out of reach of bit-vector solving. The other checks idealise them (stated as an assumption).",
}
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
            technique=s.get("technique", "symbolic execution of the compiled Rust code (own wasm executor) with Z3; counterexamples replayed on the real code"),
            level="model_checking",
            level_note="Every execution path of the real code within the stated bounds is decided for all input values on it. "
              + "Bounds: " + " | ".join(f"{h['name']}: {h['bounds']}" for h in s["harnesses"] if "quick" in h.get("tiers", ("quick",)))
              + ". Outside: " + s["outside"] + ". Trusts " + s.get("trusts", "rustc's wasm32 code generation, the executor and Z3; SHA-256 (and BLS, where it occurs) idealised") + "."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na),
          open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
with open(os.path.join(os.path.dirname(__file__), "..", "BOUNDS.md"), "w") as f:
    titles = {p["id"]: p["title"] for p in props}
    f.write("# Bounds of each check\n\nGenerated from `tools/specs.py` by `tools/mkmanifest.py`. The quick check runs the harnesses marked q, the thorough one those marked t.\n")
    for i, s in SPECS.items():
        f.write(f"\n## {i} {titles[i]}\n\n")
        for h in s["harnesses"]:
            t = h.get("tiers", ("quick", "thorough"))
            f.write(f"- `{h['name']}` ({''.join(x[0] for x in t)}): {h['bounds']}.\n")
        f.write(f"\nOutside: {s['outside']}.\n")
        if s.get("assumptions"):
            f.write("\nAssumptions: " + "; ".join(s["assumptions"]) + ".\n")
