#!/usr/bin/env python3
"""check.py PROPERTY — decide one property on /repo's current source (see DESIGN.md)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rules
from rules.common import main
sys.exit(main(sys.argv[1]))
