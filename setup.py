#!/usr/bin/env python3
"""Prebuild the extractor and the search harness (every check rebuilds what changed by itself)."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
for d in ("extract", "harness"):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(here, ".build", d))
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(here, d, "Cargo.toml")], env=env)
    if r.returncode:
        sys.exit(r.returncode)
