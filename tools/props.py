#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = ['CommDspy/__init__.py', 'CommDspy/tx/', 'CommDspy/rx/', 'CommDspy/channel/', 'CommDspy/misc/', 'CommDspy/auxiliary.py']
SIM = ['example_simulation/simulation_parts/']
P = []


def prop(pid, title, statement, over, quant, why, files, mech, technique, note, na=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


from props_data import *  # noqa: E402,F401,F403  (registers the properties)


def main():
    P.sort(key=lambda p: p['pid'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
            }) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q sa checks check.py', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['na']:
            man['not_applicable'].append({'property': p['pid'], 'reason': p['na']})
            continue
        man['checks'].append({
            'property': p['pid'], 'quick_cmd': 'python3-vt check.py %s' % p['pid'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['pid'],
            'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print('%d properties, %d checks, %d not applicable' % (len(P), len(man['checks']), len(man['not_applicable'])))


if __name__ == '__main__':
    main()
