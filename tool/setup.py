#!/usr/bin/env python3
"""Builds the IR dumper (offline, from tool/irdump.cpp)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from build import irdump_bin
print(irdump_bin())
