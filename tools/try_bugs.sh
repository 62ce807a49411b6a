#!/bin/bash
# try_bugs.sh [all] [id...]: apply each planted bug to /repo, run the check of its property (all: every check), undo.
cd "$(dirname "$0")/.." || exit 1
all=0; [ "${1:-}" = all ] && { all=1; shift; }
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in "${ids[@]}"; do
    own=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    checks="$own"; [ $all = 1 ] && checks="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14"
    line="$id ($own):"
    for c in $checks; do
        out=$(bash check.sh $c quick 2>&1); rc=$?
        if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " <<<"$out"; then line="$line $c"; 
        elif [ $rc != 0 ]; then line="$line $c?rc=$rc"; echo "$out" | tail -5; fi
        [ $c = $own ] && first=$(grep -m1 "^first seen" <<<"$out")
    done
    git -C /repo checkout -- .
    echo "$line  [$first]"
done
