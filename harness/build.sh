#!/bin/bash
# Builds one conformance driver from /repo's working tree: build.sh FEATURES BIN [PROFILE]
# With the hooks of /repo on; without them if they do not compile.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR="${VERIF_TARGET:-$here/../.build}" CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
cd "$here" || exit 2
make() { cargo build --profile "$3" --offline --features "$1" --bin "$2"; }
RUSTFLAGS="$RUSTFLAGS --cfg openzkp_verif" make "$1" "$2" "${3:-release}" || make "$1" "$2" "${3:-release}"
