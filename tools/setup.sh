#!/bin/bash
# builds the extractor and the replay program
cd "$(dirname "$0")/.."
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset CARGO_TARGET_DIR
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
from rs import load_ast
load_ast()
from check import build_replay
print(build_replay()[0:2])
P
