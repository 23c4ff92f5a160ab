#!/usr/bin/env python3
"""check.py <property> [--thorough] [--verbose]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.runner import main
sys.exit(main(sys.argv[1:]))
