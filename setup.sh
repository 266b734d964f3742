#!/bin/bash
# Builds the harnesses against /repo's working tree, offline.
. "$(dirname "$0")/env.sh"
cd "$VERIF_ROOT" || exit 2
mkdir -p evidence
for c in h_intl h_parser h_gen h_env; do cargo build --release --offline --locked --manifest-path "$c/Cargo.toml" || exit 2; done
