#!/bin/bash
# build.sh CRATE... : builds harness crates against /repo's current working tree
. /verif/harness/env.sh
cd /repo || exit 2
export SFV_REPO_HASH=$(find src clade datafusion_remote_tables object_store_factory migrations resources build.rs Cargo.toml -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
cd /verif/harness || exit 2
args=(); for c in "$@"; do args+=(-p "$c"); done
exec cargo build --offline --locked "${args[@]}"
