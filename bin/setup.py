#!/usr/bin/env python3
"""Builds the pass, the runtime and every harness once (everything is cached by content; checks rebuild what changed)."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sxlib import *
sys.path.insert(0, HAR)
import registry
t = tools()
wd = tempfile.mkdtemp(prefix='sxsetup')
try:
    for pid, p in registry.PROPS.items():
        for h in p['harnesses']:
            try:
                build_harness(h, t, wd)
            except BuildError as e:
                print('setup: %s %s: %s' % (pid, h['name'], str(e)[-800:]))
finally:
    shutil.rmtree(wd, ignore_errors=True)
