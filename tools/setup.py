#!/usr/bin/env python3
"""Builds the drivers once so that the checks only rebuild what changed."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import VERIF, build
for c in sorted(os.listdir(os.path.join(VERIF, "harness"))):
    if os.path.exists(os.path.join(VERIF, "harness", c, "Cargo.toml")):
        build(c)
import subprocess
import declare
from vlib import cargo_env
declare.layout()
declare.sources([], {}, {})
subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=declare.WORK, env=cargo_env(), check=True,
               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
print("built")
