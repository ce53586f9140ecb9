#!/usr/bin/env python3
"""usage: check.py PROPERTY_ID   (tier from VERIF_TIER, seed from VERIF_SEED)"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import core  # noqa

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
