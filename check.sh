#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--only SPACE]   decide a property on /repo's working tree
# check.sh replay <file>                                       run one recorded execution again
# check.sh build                                               build only
cd "$(dirname "$0")" || exit 2
export CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
build_log=mc/target/build.log
mkdir -p mc/target
# cargo judges freshness by mtime and misses a file replaced by an older one: go by content
sources=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sources" != "$(cat mc/target/sources 2>/dev/null)" ]; then
    (cd mc && cargo clean --offline -p perception-eval >target/clean.log 2>&1)
fi
if ! (cd mc && cargo build --offline --locked >target/build.log 2>&1); then
    tail -n 60 $build_log
    echo "check.sh: the harness does not build against /repo" >&2
    exit 2
fi
echo "$sources" >mc/target/sources
case "$1" in
build) exit 0 ;;
replay) exec mc/target/debug/mc replay "$2" ;;
*) exec mc/target/debug/mc check "$@" ;;
esac
