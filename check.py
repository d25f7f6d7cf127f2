#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pcs.report import main
sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
