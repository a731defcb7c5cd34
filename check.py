#!/usr/bin/env python3
"""Entry point of every check:  python3 check.py <property> [quick|thorough]

Builds the simulator that decides the property from /repo's working tree, runs a
seeded batch of simulated runs on all cores, gates and minimises any violation,
writes evidence/<property>.json.  Exit 0: held; exit 1: VIOLATION line printed;
anything else: the check itself failed."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sim"))
import driver
sys.exit(driver.main(sys.argv[1:]))
