#!/bin/bash
# developer helper: extract and verify one or more modules
D=${D:-/tmp/vxout}
/verif/vx/target/release/vx --out $D $VXARGS || exit 3
jq -r '.problems[], (.functions[]|.problems[])' $D/gen.json | head -20
args=()
for m in "$@"; do args+=(--verify-only-module $m); done
cd $D && verus --crate-type lib gen.rs --cap-lints allow --multiple-errors 5 --num-threads 8 "${args[@]}" > out.txt 2>&1
python3 - <<'PY'
import re,os
t=open(os.environ.get('D','/tmp/vxout')+'/out.txt').read()
blocks=re.split(r'\n(?=error|warning|note|verification results)',t)
n=0
for b in blocks:
    if b.startswith('warning'): continue
    print(b); n+=1
PY
