#!/bin/bash
# tools/bug.sh ID... : verify planted bugs in scratch copies of /repo (never in /repo itself):
#   patch applies, stable tests still pass, demo 0 without / nonzero with it, own check catches it.
# SKIPTESTS=1 leaves the test suite out.
here=$(cd "$(dirname "$0")/.." && pwd)
one() {
    id=$1
    dir=$here/seeded/$id
    w=$(mktemp -d /tmp/bug.XXXXXX)
    cp -a /repo "$w/repo"
    export MPLBACKEND=agg MPLCONFIGDIR=$w/mpl PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
    export OMP_NUM_THREADS=1 OMPI_MCA_btl=self OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated
    export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
    cp -a "$dir" "$w/demo"
    rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
    r="$id:"
    (cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" > "$w/demo0.log" 2>&1) && r="$r demo0=ok" || r="$r demo0=FAIL($(tail -c 300 $w/demo0.log))"
    if git -C "$w/repo" apply "$dir/patch.diff"; then r="$r applies"; else echo "$r DOES NOT APPLY"; rm -rf "$w"; return; fi
    (cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" > "$w/demo1.log" 2>&1) && r="$r demo1=PASSES(bad)" || r="$r demo1=fails(good)"
    if [ -z "$SKIPTESTS" ]; then
        bad=$(cd "$w" && PYTHONPATH=$w/repo python3 "$here/tools/stable_tests.py" "$w")
        [ -z "$bad" ] && r="$r tests=ok" || r="$r TESTS BROKEN: $bad"
    fi
    prop=$(python3 -c "import json,sys; print(json.load(open('$dir/meta.json'))['property'])")
    out=$(cd "$here" && VERIF_EVIDENCE="$w/ev" VERIF_REPO="$w/repo" VERIF_SEED=${SEED:-1} bin/check "$prop" 2>&1); rc=$?
    if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$prop "; then
        r="$r CAUGHT[$(echo "$out" | grep -E "^$prop: " | sed -E 's/ in [0-9]+ case.*//' | tr '\n' ' ')]"
    else r="$r MISSED rc=$rc $(echo "$out" | tail -n 2)"; fi
    echo "$r"
    rm -rf "$w"
}
for id in "$@"; do one "$id"; done
