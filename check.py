#!/usr/bin/env python3
"""check.py C05 [--tier quick|thorough] [--replay FILE]: model-check one property on /repo."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc.runner import main  # noqa: E402

sys.exit(main() or 0)
