#!/usr/bin/env python3
"""check.py <property> [--thorough] [--repo DIR]

Decides one property from the current source of /repo, without running it."""
import argparse, os, pathlib, sys

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True

from engine import runner  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--thorough', action='store_true', default=os.environ.get('VERIF_TIER') == 'thorough')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    return runner.run(HERE, a.repo, a.property, a.thorough, a.verbose)


if __name__ == '__main__':
    sys.exit(main())
