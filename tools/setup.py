#!/usr/bin/env python3
"""Builds everything the checks need."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, props
os.makedirs(build.OUT, exist_ok=True)
try:
    build.build(props.DRIVERS)
except build.BuildError as e:
    print(e)
    sys.exit(1)
