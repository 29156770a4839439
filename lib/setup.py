#!/usr/bin/env python3
"""Builds one harness, to see that the tools are there."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
import run
pid = 'P01'
print(run.build(pid, checks.CHECKS[pid]['parts'][0]))
