#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property for /repo's working tree."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True

import core
from rules.registry import RULES

if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(core.main(sys.argv[1], tier, RULES))
