#!/bin/bash
# run the check of each planted bug (or of the named ones) against it
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  echo "$d: $(python3 tools/mutant.py $p --patch seeded/$d/patch.diff 2>&1 | grep -v '^==' | grep -E 'VIOLATION|error|Error|cases' | head -2 | cut -c1-200 | tr '\n' '|')"
done
