#!/bin/bash
# seedcheck.sh [ID...] : run the check of a planted bug's property against a scratch copy of
# /repo with the bug (default: all) and note the result in tools/seed_results.json
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  W=/tmp/seedcheck_$id
  rm -rf "$W"; cp -a "${SEED_BASE:-/repo}" "$W"; git -C "$W" checkout -q -- .
  if git -C "$W" apply "$PWD/seeded/$id/patch.diff"; then
    out=$(VERIF_REPO=$W bash check.sh $P --quick 2>&1); rc=$?
    echo "$id $P rc=$rc $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep '^unit=' | head -1 | cut -c1-160)"
    python3 - "$id" "$P" "$rc" <<'X'
import json, os, sys
f = "tools/seed_results.json"
d = json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]] = "%s quick" % sys.argv[2] if sys.argv[3] == "1" else "missed (rc=%s)" % sys.argv[3]
json.dump(d, open(f, "w"), indent=1, sort_keys=True)
X
  else echo "$id patch does not apply"; fi
  rm -rf "$W"
done
