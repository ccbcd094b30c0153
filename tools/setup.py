#!/usr/bin/env python3
"""Builds the harness, offline, from the committed files and /repo's tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print(vlib.build_harness())
