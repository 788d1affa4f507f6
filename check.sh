#!/bin/sh
# Build the harness against /repo's working tree and run one check.
# check.sh ID; see DESIGN.md. VERIF_SEED and VERIF_TIER are honoured.
cd "$(dirname "$0")" || exit 2
log=$(mktemp) || exit 2
if ! (cd harness && cargo build --release --offline --locked) >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    rm -f "$log"
    echo "error: the harness does not build" >&2
    exit 2
fi
rm -f "$log"
exec harness/target/release/pvcheck check "$1"
