#!/usr/bin/env python3-vt
"""Builds (or unpacks) the AST exporter; everything else is done by each check."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import extract, z3
print("exporter:", extract.exporter(), "z3:", z3.get_version_string())
