#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    lines, checks, na = [], [], []
    for p in props.PROPS:
        o = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'],
                         'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        assert len(o['title']) <= 80, o['title']
        assert o['statement'].count('. ') <= 2, p['id']
        for f in p['files']:
            assert os.path.exists('/repo/' + f), f
        lines.append(json.dumps(o, ensure_ascii=False))
        if p.get('na'):
            na.append({'property': p['id'], 'reason': p['na']})
        elif os.path.exists(os.path.join(ROOT, 'sa/rules/%s.py' % p['id'].lower())):
            c = {'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                 'technique': p['tech'], 'level': 'other', 'level_note': p['note']}
            checks.append(c)
        else:
            na.append({'property': p['id'], 'reason': 'check under construction'})
    open(os.path.join(ROOT, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup_check.py', 'checks': checks, 'not_applicable': na,
         'notes': 'Every check parses /repo/metku on each run; nothing of it is executed. See DESIGN.md.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')


main()
