#!/usr/bin/env python3
"""Builds the symbolic executor ahead of the checks."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib
print(sxlib.engine())
