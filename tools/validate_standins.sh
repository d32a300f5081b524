#!/bin/bash
# Runs hyperbee's own unit tests (src/**, not the JS/Python/C integration tests) from a copy of /repo against the
# stand-in crates: they are the reference for whether the stand-ins behave as hyperbee expects.
set -e
w=$(mktemp -d /tmp/hbval.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -r /repo/src /repo/build.rs /repo/uniffi-bindgen.rs /repo/Cargo.toml /repo/README.md "$w"
mkdir "$w/examples"; cp /repo/examples/ram.rs "$w/examples/"
cd "$w"
python3 - "$w/Cargo.toml" <<'P'
import sys
p=sys.argv[1]; s=open(p).read()
s=s.replace('git = "https://github.com/cowlicks/replicator.git"','path="/verif/standins/replicator"')
s+='\n[workspace]\n[patch.crates-io]\n'+''.join(f'{c}={{path="/verif/standins/{c}"}}\n' for c in ['hypercore','derive_builder','futures-lite','async-recursion','random-access-memory'])
open(p,'w').write(s)
P
CARGO_TARGET_DIR=${HBVAL_TARGET:-$w/target} cargo test --offline --features debug --lib --examples "$@"
CARGO_TARGET_DIR=${HBVAL_TARGET:-$w/target} cargo run --offline --example ram
