#!/bin/bash
# builds the simulator
here=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_TARGET_DIR=$here/target
. "$here/tools/env.sh"
cd "$here/sim" && cargo build --offline
