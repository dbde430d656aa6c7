# Sourced by check.sh and setup.sh.
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_HUSKY_DONT_INSTALL_HOOKS=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET

# Cargo trusts file times.  A content hash of the sources under test makes
# sure a stale build of finquant is never monitored.
sync_fingerprint() {
  local h old
  h=$(cd /repo && { cat Cargo.toml; find src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1) || return 1
  mkdir -p "$ROOT/harness/target"
  old=$(cat "$ROOT/harness/target/repo.sha256" 2>/dev/null)
  if [ "$h" != "$old" ]; then
    (cd "$ROOT/harness" && cargo clean --release --offline -p finquant) >/dev/null 2>&1
    echo "$h" > "$ROOT/harness/target/repo.sha256"
  fi
  return 0
}
