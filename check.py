#!/usr/bin/env python3
"""Decides one property of /repo's current tree: check.py C05 [--tier quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='+'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    import fw
    import props
    r = 0
    for p in (sorted(fw.PROPS) if a.property == ['all'] else a.property):
        r = max(r, fw.run(p, a.tier, int(os.environ.get('VERIF_SEED', '1'))))
    sys.exit(r)
main()
