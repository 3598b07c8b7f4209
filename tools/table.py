"""Rewrites tools/design_tail.md: the list of genuine defects (from known_findings.txt) and the table of
seeded changes (from seeded/*/meta.json).  Run by hand, before gen.py; no check and no setup step uses it."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ['## Genuine defects', '',
       'All are listed in `known_findings.txt`. Repaired ones carry the commit in /repo; the others are findings whose '
       'repair is not small (a feature is missing behind the call), which the check of C13 prints as KNOWN-FINDING.', '']
fx, fi = [], []
for l in open(V + '/known_findings.txt'):
    l = l.strip()
    if l.startswith('fixed:'):
        _, p, c, d = l.split(' ', 3)
        fx.append('- %s `%s` %s' % (p.split('=')[1], c, d))
    elif l.startswith('finding:'):
        fi.append('- %s %s' % (l.split()[1].split('=')[1], l.split(' :: ', 1)[1]))
out += ['Repaired (%d):' % len(fx), ''] + fx + ['', 'Recorded:', ''] + fi + ['']
out += ['## Seeded changes', '',
        '`/verif/seeded/<id>` holds the planted changes. Each was written from the statement of its property, builds, '
        'passes the stable tests, and has a demonstration that fails with it and passes without it. The last column '
        'names the check that reports it (the analyser may report it under other properties as well).', '',
        '| change | needs | breaks | reported by |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['needs'], d['what_it_breaks'],
                                         d.get('caught', d['property'])))
open(V + '/tools/design_tail.md', 'w').write('\n'.join(out) + '\n')
