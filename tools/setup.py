#!/usr/bin/env python3
"""Builds the framework once (the checks rebuild incrementally)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build
build.build()
build.build_fortran()
print("ok", build.driver_path())
