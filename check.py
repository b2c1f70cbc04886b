#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]  -- decide one property on /repo's current working tree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import common  # noqa: E402

prop = sys.argv[1]
mod = importlib.import_module("props." + prop.lower())
common.main(mod.run, prop)
