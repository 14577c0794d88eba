#!/usr/bin/env python3
"""Builds the harness and parses the specifications."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
r = engine.Run("setup")
try:
    engine.build(r)
except engine.ToolError as e:
    print(e)
    sys.exit(1)
