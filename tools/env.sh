# sourced: the code under test is built with the edge hook of sim/wrap.sh,
# which cargo's fingerprints do not know about
export RUSTC_WRAPPER=$here/sim/wrap.sh
if [ -d "$CARGO_TARGET_DIR" ] && [ ! -e "$CARGO_TARGET_DIR/.edges" ]; then
  (cd "$here/sim" && cargo clean --offline -q -p terminus-store) >/dev/null 2>&1
fi
mkdir -p "$CARGO_TARGET_DIR" && : >"$CARGO_TARGET_DIR/.edges"
