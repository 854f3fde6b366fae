#!/bin/bash
# determinism: the same seed must give the same digest twice
cd "$(dirname "$0")/.."
n=${CASES:-60}
for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  a=$(python3 check.py --property $p --cases $n --no-evidence | grep -o "digest [0-9a-f]*")
  b=$(BM25SIM_LANES=3 python3 check.py --property $p --cases $n --no-evidence | grep -o "digest [0-9a-f]*")
  [ "$a" = "$b" ] && echo "$p $a" || echo "$p DIFFERS: $a / $b"
done
