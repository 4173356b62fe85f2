#!/bin/bash
# Rebuild vharness from /repo's working tree; content hash (not mtimes) decides whether pmcp is stale.
cd "$VERIF_ROOT/harness" || exit 1
mkdir -p "$CARGO_TARGET_DIR"
H=$( (cd /repo && find src Cargo.toml pmcp-macros -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$CARGO_TARGET_DIR/repo.hash" 2>/dev/null)" != "$H" ]; then
  cargo clean --offline -p pmcp -p pmcp-macros >/dev/null 2>&1
  rm -f "$CARGO_TARGET_DIR/repo.hash"
fi
OUT=$(cargo build --offline --locked 2>&1) || { echo "$OUT" | tail -60 >&2; exit 1; }
echo "$H" > "$CARGO_TARGET_DIR/repo.hash"
