#!/bin/bash
# Builds every harness once; the checks rebuild what they need from /repo's working tree.
cd "$(dirname "$0")/.."
export RUST_BACKTRACE=0
python3 - <<'P'
import sys; sys.path.insert(0,'bin')
import vlib, glob, os
for c in sorted(glob.glob('harness/*/Cargo.toml')):
    p,t = vlib.cargo_build(os.path.basename(os.path.dirname(c)))
    print(c, p.returncode)
    if p.returncode: print(p.stdout[-3000:])
P
