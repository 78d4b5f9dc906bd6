#!/usr/bin/env python3
"""Builds the monitors once, as every check does again."""
import sys
import run
exe, _ = run.build()
print("built", exe)
sys.exit(0 if exe else 1)
