#!/usr/bin/env python3
"""check.py <property id>: decide one property for /repo's working tree.
check.py <property id> --replay FILE: run a recorded failing case again."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import framework
sys.exit(framework.main(sys.argv))
