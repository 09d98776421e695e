#!/usr/bin/env python3
"""Builds the analyser (every check would build it itself if it were missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import driver
print(driver())
