#!/usr/bin/env python3
"""mkseed.py <seed id>: puts the common demonstration files (a snapshot of the harness) beside a planted bug's
own (patch.diff, meta.json, ops.json + expect.py, or its own run.sh)."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, "seeded", sys.argv[1])
lib = os.path.join(d, "lib")
shutil.rmtree(lib, ignore_errors=True)
os.makedirs(lib)
shutil.copy(f"{V}/tools/mkws.py", lib)
shutil.copytree(f"{V}/harness", f"{lib}/harness", ignore=shutil.ignore_patterns("target"))
open(f"{d}/demo.sh", "w").write('''#!/bin/bash
# Exit 0 where the property holds, 1 where it is broken. Builds a small driver against the current tree in a
# scratch directory, runs the scenario on the real code and checks what came out.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cp -r "$D/lib/." "$W/" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg pushcdn_verif"
export CARGO_TARGET_DIR="$W/target" PUSHCDN_WS="$W/.build/ws" PUSHCDN_REPO="$PWD"
python3 "$W/mkws.py" >"$W/log" 2>&1 || { tail "$W/log"; exit 2; }
(cd "$W/harness" && cargo build --offline) >"$W/log" 2>&1 || { tail -30 "$W/log"; exit 2; }
if [ -e "$D/run.sh" ]; then W="$W" H="$W/target/debug/harness" bash "$D/run.sh"; exit $?; fi
timeout 100 "$W/target/debug/harness" "$(cat "$D/mode" 2>/dev/null || echo broker-ops)" --in "$D/ops.json" --out "$W/out.json" || exit 1
python3 "$D/expect.py" "$W/out.json"
''')
