#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]   exit 0: held; 1: VIOLATION line printed"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    import checks, checks2, checks3, checks4
    return checks.CHECKS[pid](tier)
if __name__ == '__main__':
    sys.exit(main())
