#!/usr/bin/env python3
"""check.py C01 [quick|thorough] [--seed N] [--only family[,family]] [--limit N] | --replay FILE"""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core

ap = argparse.ArgumentParser()
ap.add_argument('pid', nargs='?')
ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER') or 'quick')
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
ap.add_argument('--only')
ap.add_argument('--limit', type=int)
ap.add_argument('--replay')
a = ap.parse_args()
if a.replay:
    core.replay(a.replay)
    sys.exit(0)
sys.stdout.reconfigure(line_buffering=True)
rc = core.main(a.pid.upper(), a.tier, a.seed, a.only.split(',') if a.only else None, a.limit)
sys.stdout.flush()
sys.exit(rc)
