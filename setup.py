#!/usr/bin/env python3
"""Builds the main harness variants once, so that a missing tool shows early."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
for v in ("rel", "chk", "capi", "capichk", "asan", "capiasan"):
    try:
        check.build(v)
    except check.Undecided as e:
        print(e)
        sys.exit(1)
print("ok")
