#!/bin/bash
# The same harnesses by three routes: byte domains enumerated by the executor (as the checks run), everything sent to
# Z3, and another release of Z3. Verdicts, paths and covers must agree. Run the checks first (they build the modules).
cd "$(dirname "$0")/.." || exit 2
W=.build/engine/release/wsym
Z=$(ls /opt/veriftools/pyvenv/lib/python3*/site-packages/z3/lib/libz3.so | head -1)
bad=0
one() { # feature harness
  local m=.build/wasm-$1/wasm32-unknown-unknown/release/harness.wasm r=()
  for o in "" "--z3-all" "--z3 $Z"; do
    $W "$m" --harness "$2" --threads 8 --time 600 $o --out /tmp/validate.$$.json >/dev/null 2>&1
    r+=("$(python3 -c "
import json,sys
d=json.load(open('/tmp/validate.$$.json'))
print(d['status'],d['paths'],d['covers'])" 2>&1)")
  done
  rm -f /tmp/validate.$$.json
  if [ "${r[0]}" == "${r[1]}" ] && [ "${r[0]}" == "${r[2]}" ]; then echo "same  $2: ${r[0]:0:90}"; else echo "DIFFERENT $2"; printf '   %s\n' "${r[@]}"; bad=1; fi
}
for h in c01_labels c02_small c03_inject c04_len c06_sym c07_len c08_copies; do one tree $h; done
for h in c09_tree c10_heads c11_bytes; do one cbor $h; done
for h in c12_window c13_plain c14_ranges; do one cv $h; done
for h in c25_bind c26_bind c28_one c27_order c30_text; do one http $h; done
for h in c16_version c18_place c20_kinds c22_field c24_only; do one rv $h; done
for h in c33_text c31_status; do one asset $h; done
exit $bad
