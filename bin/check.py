#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of libdart (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, checks
sys.exit(vp.main(checks.CHECKS))
