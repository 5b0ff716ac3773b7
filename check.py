#!/usr/bin/env python3
"""python3 check.py ID [--tier quick|thorough] [--jobs N] [-v] [--only TEXT]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from checks.framework import run_check  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='+')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--jobs', type=int, default=None)
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    rc = 0
    for i in a.ids:
        r = run_check(i, a.tier, a.jobs, a.v, a.only)
        rc = max(rc, r) if rc != 1 else 1
    sys.exit(rc)


if __name__ == '__main__':
    main()
