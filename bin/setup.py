#!/usr/bin/env python3
"""Builds the harness once, so that later checks only rebuild the crates under test."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vp import Check
c = Check("setup")
c.build()
c.cleanup()
