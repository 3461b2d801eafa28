#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [-v] [--only JOB]"""
import argparse
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vc import prop

a = argparse.ArgumentParser()
a.add_argument('property')
a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
a.add_argument('-v', action='store_true')
a.add_argument('--only')
a.add_argument('--nodriver', action='store_true')
a.add_argument('--keep', action='store_true')
o = a.parse_args()
sys.exit(prop.check(o.property, o.tier, o.v, o.only, o.nodriver, o.keep))
