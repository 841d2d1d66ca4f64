#!/bin/bash
# ./check.sh build | check <property> [--tier quick|thorough] [options] | replay <file> | run <scenario> <seed>
# Builds the simulator against /repo's working tree and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
log="$(mktemp)"
(cd "$here/sim" && cargo build --offline --quiet) >"$log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
    cat "$log"; rm -f "$log"
    echo "ERROR: the simulator does not build against /repo"
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
export MANUL_DST_ROOT="$here"
exec "$here/sim/target/debug/manul-dst" "$@"
