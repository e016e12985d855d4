#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough]: decides one property on /repo's current tree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine.ctx import main
if __name__ == '__main__':
    sys.exit(main(sys.argv))
