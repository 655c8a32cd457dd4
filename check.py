#!/opt/veriftools/pyvenv/bin/python
"""check.py ID : decide one property of /repo's current source"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.report import main
if sys.argv[1] == "--version":
    print("static checks of /repo/src")
    sys.exit(0)
sys.exit(main(sys.argv[1]))
