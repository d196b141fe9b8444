#!/usr/bin/env python3
"""Builds all drivers against /repo (each check builds what it needs again when /repo changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checklib import build, CheckError
try:
    build(None)
except CheckError as e:
    print(e)
    sys.exit(1)
