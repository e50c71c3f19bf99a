#!/bin/bash
# try.sh SEED [PROP] [args]: apply a planted bug to /repo, run a check, undo
s=$1; shift; P=${1:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")}; shift
git -C /repo diff --quiet || { echo dirty; exit 9; }
git -C /repo apply /verif/seeded/$s/patch.diff || exit 9
timeout 900 /verif/bin/check $P "$@" | cut -c1-300 | grep -E "VIOLATION|ERROR|OK|KNOWN|/" | head -${LINES_MAX:-8}
echo "rc=${PIPESTATUS[0]}"
git -C /repo checkout -- .
