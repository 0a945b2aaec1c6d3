#!/usr/bin/env python3
"""Builds the harness once (a check builds what it needs by itself, from /repo's current tree)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
for t, (h, l) in vbuild.TARGETS.items():
    print(t, vbuild.build(t, h, l))
