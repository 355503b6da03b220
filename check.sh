#!/bin/bash
# Usage: check.sh <property> | check.sh --replay FILE | check.sh --build
# Builds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. "$VERIF_DIR/env.sh"
prop="$1"
case "$prop" in
    --build) build_core && build_app && build_delay && build_bins; exit $? ;;
    --replay) id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2 ;;
    *) id="$prop" ;;
esac
kind=core
case "$id" in
    A*|P01|P02|P03|P04|T*|B*) kind=core ;;
    P05|S*) kind=e2e ;;
    C01|U02|U03|U04|U05) kind=tui ;;
    *) kind=app ;;
esac
case "$kind" in
    core) build_core || exit 2; bin=vh-core ;;
    e2e) build_core && build_bins || exit 2; bin=vh-core ;;
    app) build_app || exit 2; bin=vh-app ;;
    tui) build_app && build_delay && build_bins || exit 2; bin=vh-app ;;
esac
# Memory that grows without bounds is noticed before the sandbox runs out of it
ulimit -v 16000000
if [ "$prop" = --replay ]; then
    exec "$CARGO_TARGET_DIR/debug/$bin" replay "$2"
else
    exec "$CARGO_TARGET_DIR/debug/$bin" check "$id"
fi
