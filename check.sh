#!/bin/bash
# usage: check.sh ID [quick|thorough]
# Builds the harness against /repo's working tree and decides one property.
# Exit: 0 held, 1 violated (VIOLATION line), 2 could not be decided (e.g. /repo does not build).
cd "$(dirname "$0")" || exit 2
export VH_VERIF="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
# never trust file times for the code under test
rm -rf "$PWD"/target/debug/.fingerprint/mysql_cdc-* 2>/dev/null
if ! out=$(cd harness && cargo build --offline --locked 2>&1); then
    echo "$out" | tail -60 >&2
    echo "check.sh: the harness does not build against /repo" >&2
    exit 2
fi
exec "$PWD/target/debug/vh" check "$1" --tier "${2:-quick}" --seed "${VERIF_SEED:-1}"
