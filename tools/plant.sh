#!/bin/bash
# plant.sh ID: confirms a planted bug in a scratch copy: the demo passes without it, it builds, the stable tests pass
# with it, and the demo fails with it. plant.sh --check ID PROPERTY: runs a check against it in /repo, then undoes it.
set -u
dir=/verif/seeded
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=line-tables-only
if [ "$1" = --check ]; then
    git -C /repo diff --quiet || { echo "dirty /repo"; exit 2; }
    git -C /repo apply "$dir/$2/patch.diff" || exit 2
    (cd /verif && VERIF_SEED=${VERIF_SEED:-1} timeout 1000 ./check.sh "$3" 2>&1 | tail -4 | cut -c1-300)
    git -C /repo checkout -- .
    exit 0
fi
id=$1 copy=/tmp/plant/repo
[ -d $copy ] || { mkdir -p /tmp/plant; cp -a /repo $copy; }
git -C $copy fetch -q /repo HEAD && git -C $copy reset -q --hard FETCH_HEAD
cd $copy
build() { cargo test --workspace --all-targets --no-run --offline > /tmp/plant/build.log 2>&1 || { grep -A8 "^error" /tmp/plant/build.log | head -40; return 1; }; }
build || exit 1
(timeout 300 bash "$dir/$id/demo.sh" > /tmp/plant/demo0.log 2>&1); r=$?
[ $r = 0 ] || { echo "demo fails without the patch ($r)"; tail -20 /tmp/plant/demo0.log; exit 1; }
git apply "$dir/$id/patch.diff" || { echo "does not apply"; exit 1; }
build || { echo "does not build"; exit 1; }
timeout 780 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/plant/test.log 2>&1
grep -aE "^test .*FAILED" /tmp/plant/test.log && { echo "tests notice it"; exit 1; }
(timeout 300 bash "$dir/$id/demo.sh" > /tmp/plant/demo1.log 2>&1); r=$?
[ $r != 0 ] || { echo "demo passes with the patch"; exit 1; }
echo "$id: confirmed (demo exits $r): $(tail -1 /tmp/plant/demo1.log | cut -c1-200)"
git checkout -q -- .
