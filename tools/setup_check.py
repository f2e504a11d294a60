#!/usr/bin/env python3
"""Nothing to build: the checks are pure Python (standard library). Confirms the interpreter can
load the framework."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sa import core, kit  # noqa: F401
print('ok')
