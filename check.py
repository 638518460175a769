#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]"""
import sys, os, argparse, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from nv import engine as E
from nv.report import Report
from nv import registry


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    if a.property not in registry.CHECKS: print('no check for', a.property); return 2
    try:
        E.tool()
        rep = Report(a.property, a.tier)
        return registry.CHECKS[a.property](rep, a.tier)
    except E.Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (a.property, e)); return 3
    except Exception:
        # the analysis met a construct it cannot represent: what was decided so far stands, the rest is undecided (evidence says so)
        traceback.print_exc()
        rep = Report.current
        if rep is None or not rep.proved: print('ANALYSIS-BROKEN property=%s' % a.property); return 3
        print('ANALYSIS-INCOMPLETE property=%s' % a.property)
        rep.undecided('remaining obligations', 'internal error: ' + traceback.format_exc().splitlines()[-1])
        return rep.finish('INCOMPLETE: the analysis stopped at a construct it cannot represent.', {})


if __name__ == '__main__': sys.exit(main())
