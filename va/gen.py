#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from properties.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from properties import PROPS, NOT_APPLICABLE                            # noqa: E402
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def line(p):
    return {'id': p.id, 'title': p.title, 'statement': p.statement, 'quantifier': {'over': p.over, 'text': p.qtext},
            'why_tests_cant': p.why, 'anchors': {'files': p.files, 'mechanism': [{'name': p.mechanism, 'where': ', '.join(p.files)}]}}


with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(PROPS + [p for p, _ in NOT_APPLICABLE], key=lambda p: p.id):
        f.write(json.dumps(line(p), ensure_ascii=False) + '\n')
m = {
    'version': 1,
    'setup_cmd': 'python3 va/check.py --setup',
    'checks': [{'property': p.id, 'quick_cmd': 'python3 va/check.py ' + p.id,
                'thorough_cmd': 'python3 va/check.py %s --thorough' % p.id,
                'technique': p.technique, 'level': 'other', 'level_note': p.note} for p in PROPS],
    'not_applicable': [{'property': p.id, 'reason': r} for p, r in NOT_APPLICABLE],
    'notes': 'Every check type-checks /repo with the compiler (nightly, rustc_private driver in driver/), writes its MIR down as '
             'facts, and decides rules on every abstract path of the functions concerned. See DESIGN.md.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
