#!/usr/bin/env python3
"""Builds the MIR dump driver (the checks build it themselves when it is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from va import mir
print(mir.build_driver())
