#!/usr/bin/env python3
"""Confirms that the installed toolchain can produce the IR the checks analyse (each check builds its own)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sa"))
import extract as EX
r = EX.raw()
print("%d functions in the linked module" % len(r.defined))
