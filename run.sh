#!/bin/bash
# run.sh ID TIER: builds the engine when it is missing and runs one check.
# run.sh replay FILE: runs the inputs of a violation against the real code.
cd "$(dirname "$0")" || exit 2
T=${2:-quick}
if [ ! -x engine/target/release/symex ] || [ -n "$(find engine/src engine/Cargo.toml -newer engine/target/release/symex 2>/dev/null)" ]; then
    (cd engine && cargo build --release --offline -q) || exit 2
fi
[ "$1" = replay ] && exec engine/target/release/symex replay "$2"
exec engine/target/release/symex check "$1" --tier "$T"
