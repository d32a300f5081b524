# sourced by check.sh and setup.sh: builds the harness from /repo's working tree
# cargo goes by modification times; go by content instead
now=$(cd /repo && find src build.rs Cargo.toml -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
stamp=$CARGO_TARGET_DIR/hyperbee.sha256
if [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
    find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 -name 'hyperbee-*' -exec rm -rf {} + 2>/dev/null
fi
log=$CARGO_TARGET_DIR/build.log
if ! cargo build --quiet --locked --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    tail -40 "$log"
    echo "the harness does not build against /repo"
    return 2
fi
echo "$now" >"$stamp"
