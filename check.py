#!/usr/bin/env python3
"""check.py run C05 [--tier quick|thorough]   one property against /repo's working tree
   check.py replay FILE                        re-run a recorded failing input
   check.py setup                              build the extractor and the engine"""
import sys, os
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vlib"))
import driver
sys.exit(driver.main(sys.argv[1:]))
