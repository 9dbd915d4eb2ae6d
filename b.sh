#!/bin/bash
# Builds a harness flavour: b.sh plain|sched
. "$(dirname "$0")/env.sh"
set -e
case "$1" in
plain) cd "$VERIF_ROOT/plain"; RUSTUP_TOOLCHAIN=$TC_STABLE RUSTFLAGS="--cap-lints warn" cargo build --release --offline ;;
sched) cd "$VERIF_ROOT/sched"; RUSTUP_TOOLCHAIN=$TC_STABLE RUSTFLAGS="--cap-lints warn --cfg scc_verif" cargo build --release --offline ;;
esac
