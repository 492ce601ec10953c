#!/bin/bash
# check.sh ID [quick|thorough] | check.sh ID --replay FILE
# Builds what decides property ID from /repo's working tree, and runs it.
# Exit 0: it holds on everything explored; 1: violation; other: no answer.
. "$(dirname "$0")/env.sh"
id=$1; shift
crate=$(awk -v id="$id" '$1 !~ /^#/ { for (i = 3; i <= NF; i++) if ($i == id) print $1 " " $2 }' "$VERIF_DIR/checks.txt")
if [ -z "$crate" ]; then
    echo "no check for $id" >&2
    exit 2
fi
set -- "$@"
read -r workspace package <<< "$crate"
# The checks of the VS Code extension run on Node, and bundle it themselves
if [ "$package" = node ]; then
    exec node "$VERIF_DIR/$workspace/main.js" "$id" "$@"
fi
log=$(mktemp)
if ! (cd "$VERIF_DIR/$workspace" && cargo build -q -p "$package") > "$log" 2>&1; then
    tail -n 60 "$log" >&2
    rm -f "$log"
    echo "$id: the check does not build" >&2
    exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/$package" "$id" "$@"
