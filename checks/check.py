#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current sources."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa.build import Broken
from sa.report import Report
from sa import registry


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    modname, fn, technique = registry.CHECKS[prop]
    rep = Report(prop, tier)
    try:
        getattr(importlib.import_module('sa.' + modname), fn)(rep)
        return rep.finish(technique)
    except Broken as e:
        print('BROKEN: %s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
