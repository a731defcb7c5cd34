#!/usr/bin/env python3
"""replay.py <property> <replay file>: rebuild the simulator from /repo and replay one file verbosely."""
import sys, os, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sim"))
import builds, driver
cmd = builds.ENGINES[driver.PROPS[sys.argv[1]]["engine"]]()
sys.exit(subprocess.call(cmd + ["replay", sys.argv[1], sys.argv[2], "-v"], env=driver.ENV))
