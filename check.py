#!/usr/bin/env python3
"""check.py <property id> [--thorough]"""
import os, sys, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'rules')]
os.environ.setdefault('PYTHONHASHSEED', '0')
import report
if __name__ == '__main__':
    prop = sys.argv[1]
    if '--thorough' in sys.argv: os.environ['VERIF_TIER'] = 'thorough'
    mod = importlib.import_module(prop.lower())
    sys.exit(report.main(prop, mod.run))
