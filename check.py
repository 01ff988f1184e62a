#!/usr/bin/env python3
"""check.py Cxx [--thorough]"""
import os, sys
sys.dont_write_bytecode = True
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "mc"))
import framework
framework.main(sys.argv[1])
