#!/usr/bin/env python3
"""Builds the harness once, so that problems of the sandbox show early. Every check builds what it needs itself."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(ROOT, "target"))
sys.exit(subprocess.call(["cargo", "build", "--offline", "-q", "--features", "grow", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")], env=e))
