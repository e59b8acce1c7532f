#!/bin/bash
# seed.sh ID...: confirm seeded bugs in a scratch copy of /repo: the demonstration passes on the
# unchanged tree and fails with the patch, the stable tests still pass, and whether the check of
# its property catches it. (Development tool; no check uses it.)
set -u
mut=/tmp/mut
here="$(cd "$(dirname "$0")/.." && pwd)"
[ -d $mut ] || cp -a /repo $mut
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=$mut/target CARGO_NET_OFFLINE=true
reset() { cd $mut && git fetch -q /repo && git reset -q --hard && git checkout -q -f "$(git -C /repo rev-parse HEAD)"; touch src/lib.rs src/main.rs; }
for id in "$@"; do
    d="$here/seeded/$id"
    demo=$(mktemp -d); cp "$d"/* "$demo/"; rm -f "$demo/patch.diff" "$demo/meta.json"
    if [ -z "${SKIP_DEMO:-}" ]; then
    reset; cargo build --offline --quiet 2>/dev/null
    (cd $mut && timeout 300 bash "$demo/demo.sh") >/tmp/seed.out 2>&1; a=$?
    [ $a = 0 ] || cat /tmp/seed.out
    git apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
    cargo build --offline --quiet 2>/tmp/seed.err || { echo "$id: BUILD FAILS"; grep -A9 ^error /tmp/seed.err; continue; }
    (cd $mut && timeout 300 bash "$demo/demo.sh") >/tmp/seed.out 2>&1; b=$?
    [ -n "${V:-}" ] && cat /tmp/seed.out
    cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/seed.test 2>&1
    python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.test >/dev/null 2>&1
    t=$(python3 -c "
import json
a=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(len(set(b['stable'])-set(a['passed'])))")
    # lines removed must come from the original repository
    echo "$id: unchanged=$a patched=$b stable tests missing=$t  $([ $a = 0 ] && [ $b != 0 ] && [ "$t" = 0 ] && echo CONFIRMED || echo BAD)"
    else reset; git apply "$d/patch.diff"; fi
    rm -rf "$demo"
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    if [ -z "${SKIP_CHECK:-}" ]; then
        VP_REPO=$mut bash "$here/check.sh" $p >/tmp/seed.chk 2>&1; c=$?
        echo "$id: check $p exit=$c $(grep -m1 VIOLATION /tmp/seed.chk)"
        [ $c = 1 ] || tail -3 /tmp/seed.chk | cut -c1-300
    fi
    reset
done
