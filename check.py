#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] [--seed N] [--case I] [--cases N]"""
import argparse, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
import fw
ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
ap.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
ap.add_argument('--case', type=int)
ap.add_argument('--cases', type=int)
a = ap.parse_args()
mod = __import__(a.prop.lower())
try:
    rc = fw.main(a.prop, mod, a.tier, int(a.seed), a.case, a.cases)
except Exception:
    import traceback
    traceback.print_exc()
    rc = 2
sys.exit(rc)
