#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py (one source for both)."""
import glob
import json
import os
import importlib.util

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    props, na, checks, sect = [], [], [], {}
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'props', '*.py'))):
        sp = importlib.util.spec_from_file_location('p', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for p in m.PROPS:
            p = dict(p)
            tech, note, reason = p.pop('technique', None), p.pop('note', None), p.pop('not_applicable', None)
            des = p.pop('design', '')
            sect[p['id']] = '### %s %s\n\n%s\n\n%s\n' % (p['id'], p['title'], p['statement'], ('Not applicable: ' + reason) if reason else ('Decided by: ' + tech + '. ' + des + '\n\n' + (note or '')))
            assert len(p['title']) <= 80, p['title']
            p['anchors']['state'] = [x if isinstance(x, dict) else {'name': x} for x in p['anchors'].get('state', [])]
            props.append(p)
            if reason:
                na.append({'property': p['id'], 'reason': reason})
            else:
                assert os.path.exists(os.path.join(HERE, 'rules', p['id'].lower() + '.py')), p['id']
                checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                               'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                               'technique': tech, 'level': 'other', 'level_note': note})
    props.sort(key=lambda p: p['id'])
    checks.sort(key=lambda p: p['property'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p) + '\n')
    T = lambda n: open(os.path.join(HERE, 'tools', n)).read()
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write(T('design_head.md') + '## Properties\n\n' + '\n'.join(sect[k] for k in sorted(sect)) + '\n' + T('design_tail.md'))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa rules check.py', 'checks': checks, 'not_applicable': na,
                   'notes': 'Every check parses the Python sources of /repo/galgebra on each run and decides the property by abstract '
                            'interpretation / dataflow over the syntax trees; nothing of galgebra is imported or executed.'}, f, indent=1)
        f.write('\n')


main()
