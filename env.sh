# Sourced by check.sh: the toolchain of the repository's own build, offline.
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export VERIF_ROOT="${VERIF_ROOT:-/verif}"
export TC_STABLE=1.92.0
