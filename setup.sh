#!/bin/bash
# Builds everything once. Checks build again what has changed.
. "$(dirname "$0")/env.sh"
status=0
for workspace in $(awk '$1 !~ /^#/ && NF && $2 != "node" { print $1 }' "$VERIF_DIR/checks.txt" | sort -u); do
    (cd "$VERIF_DIR/$workspace" && cargo build -q) || status=1
done
exit $status
