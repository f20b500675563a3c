#!/bin/bash
# b.sh c02 [args]
cd /verif/vc && cargo build --offline --bin $1 >/tmp/b.log 2>&1 || { grep -E '^(error|warning: unused)' -A7 /tmp/b.log | head -${ERRN:-40}; exit 1; }
b=$1; shift
timeout ${TMO:-600} ./target/debug/$b --verif /verif "$@" 2>&1 | cut -c1-${COLS:-300} | tail -${N:-60}
