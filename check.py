#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decides one property of /repo's current sources."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import core
core.main()
