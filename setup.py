#!/usr/bin/env python3
"""Builds the bitcode reader (once)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from xa import build  # noqa

print(build.irdump())
