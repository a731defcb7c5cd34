#!/usr/bin/env python3
"""setup_cmd: build all simulators once (every check builds again what is missing or outdated)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sim"))
import builds
for name in sorted(builds.ENGINES):
    print(name, builds.ENGINES[name]())
