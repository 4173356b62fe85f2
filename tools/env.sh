export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG
export VERIF_ROOT="$ROOT" CARGO_TARGET_DIR="$ROOT/target"
if grep -qw avx2 /proc/cpuinfo && grep -qw bmi2 /proc/cpuinfo && grep -qw fma /proc/cpuinfo; then
  export RUSTFLAGS="-C target-cpu=x86-64-v3"
else
  export RUSTFLAGS="-C target-cpu=x86-64-v2"
fi
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY all_proxy
export NO_PROXY='*'
