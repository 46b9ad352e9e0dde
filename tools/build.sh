# Sourced by check.sh, replay.sh and setup.sh with P (a property) and V (this folder) set:
# builds the simulator for that property in each profile and sets W to its name.
case "$P" in
  C10|C11|C12|C13|C14|C16|C17|C18|C19|C21|C22|C23|C25) W=parsesim ;;
  *) W=lexsim ;;
esac
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="--cfg esprit_sim --cap-lints allow"
export CARGO_TARGET_DIR="$V/sim/target"
mkdir -p "$CARGO_TARGET_DIR"
for prof in checked release plain; do
  if ! (cd "$V/sim" && cargo build --offline --locked --quiet --profile $prof -p $W) >"$CARGO_TARGET_DIR/build.$W.$prof.log" 2>&1; then
    cat "$CARGO_TARGET_DIR/build.$W.$prof.log" >&2
    echo "the simulator does not build" >&2
    return 2 2>/dev/null || exit 2
  fi
done
EXES="checked=$CARGO_TARGET_DIR/checked/$W,release=$CARGO_TARGET_DIR/release/$W,plain=$CARGO_TARGET_DIR/plain/$W"
