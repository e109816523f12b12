#!/bin/bash
# run the check of each planted bug (or of those named) against it, in a scratch copy of /repo and /verif
rm -rf /tmp/bugrun; mkdir -p /tmp/bugrun
cp -a /repo /tmp/bugrun/repo; cp -a /verif /tmp/bugrun/verif
cd /tmp/bugrun/verif
sed -i 's#"../../repo"#"../../../bugrun/repo"#' harness/Cargo.toml replay/Cargo.toml 2>/dev/null
for f in harness/Cargo.toml replay/Cargo.toml; do sed -i 's#path = "/repo"#path = "/tmp/bugrun/repo"#' $f; done
export VERIF_REPO=/tmp/bugrun/repo
for d in ${@:-$(ls /verif/seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /tmp/bugrun/repo checkout -q -- . && git -C /tmp/bugrun/repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  for q in ${PROP:-$p}; do
    s=$(date +%s); ./check $q quick > /tmp/bugrun/out 2>&1; rc=$?
    echo "$d [$q] rc=$rc $(( $(date +%s) - s ))s $(grep -c '^VIOLATION' /tmp/bugrun/out) violations; $(grep -A1 -m1 '^VIOLATION' /tmp/bugrun/out | tail -1) $(grep -m1 '^ERROR' /tmp/bugrun/out)"
  done
done
