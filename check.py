#!/usr/bin/env python3
"""python3 check.py C01 [--case N]   (VERIF_SEED, VERIF_TIER from the environment)"""
import os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(here, "lib")]
import runner
sys.exit(runner.main())
