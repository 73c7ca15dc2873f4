#!/usr/bin/env python3
"""Usage: run.py C13 [--tier quick|thorough] [--seed N] [--only family] [--replay file]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from vp.runner import main
sys.exit(main())
