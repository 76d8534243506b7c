#!/usr/bin/env python3
"""check.py --setup | check.py <property> [--thorough]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import framework                                                    # noqa: E402


def main():
    args = sys.argv[1:]
    if args[:1] == ['--setup']:
        try:
            framework.setup()
        except framework.Broken as e:
            print('ERROR: %s' % e)
            return 2
        return 0
    tier = 'thorough' if '--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    ids = [a for a in args if not a.startswith('-')]
    import properties
    p = properties.BY_ID.get(ids[0]) if ids else None
    if p is None:
        print('ERROR: no such property')
        return 2
    return framework.run_check(p.id, p.title, p, tier)


if __name__ == '__main__':
    sys.exit(main())
