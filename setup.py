#!/usr/bin/env python3
"""Warms the build caches (nothing that it makes is needed: each check builds for itself)."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core

work = tempfile.mkdtemp(prefix="jv-setup-")
try:
    core.build_driver(work)
    core.build_driver(work, race=True)
    core.build_cli(work)
    print("built")
finally:
    shutil.rmtree(work, ignore_errors=True)
