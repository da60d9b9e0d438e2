#!/bin/bash
# runs the check of each seeded bug's property on a scratch copy with it applied: trials.sh [id...]
cd "$(dirname "$0")/.."
ids=${*:-$(ls seeded)}
i=0
for n in 0 1; do
  ( k=0; for b in $ids; do
      if [ $((k % 2)) = $n ]; then
        p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
        python3 tools/trial.py s$n seeded/$b/patch.diff $p
      fi; k=$((k+1)); done ) &
done; wait
