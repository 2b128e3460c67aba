#!/usr/bin/env python3
"""Builds the executor; everything else is built by each check from /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.Builder().engine()
print('executor built')
