#!/bin/bash
# bash run.sh <property id> [args]: builds the contracts of one property against /repo's current
# tree and runs them.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
cd "$here/vc" || exit 2
log="$(mktemp)"
if ! cargo build --offline --quiet --bin "$bin" >"$log" 2>&1; then
    tail -60 "$log" >&2
    rm -f "$log"
    echo "$id: the contracts do not build against the current tree" >&2
    exit 2
fi
rm -f "$log"
exec ./target/debug/"$bin" --verif "$here" "$@"
