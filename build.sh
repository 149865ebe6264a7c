# sourced: builds the harness (release) and the cpp stand-in; sets VP_BIN and VP_CPP_SHIM
vp_here="${VP_VERIF:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"
export PATH=/usr/local/sbin:/usr/local/bin:/root/.cargo/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
mkdir -p "$vp_here/evidence" "$vp_here/harness/target/shim"
vp_log="$vp_here/evidence/build.log"
if ! (cd "$vp_here/harness" && cargo build --release --offline --locked >"$vp_log" 2>&1 && gcc -O1 -static -o target/shim/cpp shim/cpp.c >>"$vp_log" 2>&1 && gcc -O1 -w -shared -fPIC -o target/shim/faults.so shim/faults.c -ldl >>"$vp_log" 2>&1); then
  echo "ENGINE ERROR: the harness does not build" >&2; grep -E "^error" -A12 "$vp_log" | tail -40 >&2; return 2 2>/dev/null || exit 2
fi
export VP_BIN="$vp_here/harness/target/release/vharness" VP_CPP_SHIM="$vp_here/harness/target/shim" VP_FAULTS="$vp_here/harness/target/shim/faults.so"
