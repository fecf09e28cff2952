#!/usr/bin/env python3
"""Records a planted bug from an edited clone: mkbug.py CLONE ID PROPERTY NEEDS BREAKS < demo body.
The demo body sees $T (scratch directory) and $G (generator command: $G in.rs -- args)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
clone, bid, prop, needs, breaks = sys.argv[1:6]
d = os.path.join(V, "seeded", bid)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", clone, "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no change"
open(os.path.join(d, "patch.diff"), "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
head = """#!/bin/bash
# Run with cwd /repo after the build: exit 0 if the behaviour is right, nonzero if it is broken.
. /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
D=$(cd "$(dirname "$0")" && pwd)
mkdir "$T/out"
gen() { # gen RSFILE [clang args...]: runs the generator built from the working tree
  local rs=$1; shift
  cargo run --offline -q -p autocxx-gen -- --outdir "$T/out" --gen-rs-include --gen-cpp --generate-cxx-h "$rs" -- -I"$T" "$@" 2>"$T/err"
}
flat() { cat "$T"/out/*.rs | tr -s ' \\n' ' '; }
cppok() { for f in "$T"/out/gen*.cc; do g++ -std=c++14 -fsyntax-only -I"$T" -I"$T/out" "$f" || return 1; done; }
"""
open(os.path.join(d, "demo.sh"), "w").write(head + sys.stdin.read())
os.chmod(os.path.join(d, "demo.sh"), 0o755)
subprocess.run(["git", "-C", clone, "checkout", "-q", "--", "."])
