#!/usr/bin/env python3
"""Builds the exporter and exports the facts of /repo's current tree (the checks redo whatever is stale)."""
import sys
sys.dont_write_bytecode = True
from sa.facts import export_all
print(f"exported {len(export_all())} translation units")
