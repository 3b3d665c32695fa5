#!/usr/bin/env python3
"""setup_cmd: checks the toolchain and warms the object cache (the checks rebuild on their own if it is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
for f, h in (('asan', 'h_cont'),):
    try:
        print(build.build(f, h))
    except build.BuildError as e:
        print('warning: %s' % e)
