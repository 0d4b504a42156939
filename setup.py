#!/usr/bin/env python3
"""Warms the build cache: compiles the harness against /repo, without and with the race detector."""
import os, shutil, sys, tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run

scratch = tempfile.mkdtemp(prefix="verif_setup_")
try:
    env = run.env_for_go()
    for conf in ({}, {"race": True}):
        run.build(conf, env, scratch)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("OK setup")
