#!/bin/bash
# bash tools/all.sh [quick|thorough] [SEED...]: runs all checks; prints only what is not quiet
cd "$(dirname "$0")/.." || exit 2
tier=${1:-quick}; shift
for seed in "${@:-1}"; do
    for f in rv/checks/c[0-9]*.py; do
        c=$(basename "$f" .py | tr c C)
        start=$SECONDS
        out=$(VERIF_SEED=$seed VERIF_TIER=$tier bash run.sh "$c" "$tier" 2>&1); code=$?
        if [ $code != 0 ] || [ -n "$VERBOSE" ]; then echo "$c seed $seed exit $code $((SECONDS - start)) s: ${out:0:${WIDTH:-1500}}"; fi
    done
done
echo "done"
