#!/usr/bin/env python3
"""DESIGN.md = spec/design.md + tables of defects, findings, planted bugs and properties that are not applicable"""
import glob
import json
import os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(D + '/spec/design.md').read().rstrip(), '']
kf = json.load(open(D + '/known_findings.json'))['findings']
man = json.load(open(D + '/MANIFEST.json'))
na = man.get('not_applicable', [])
out += ['## Appendix A: properties that are not applicable', '']
for x in na:
    out.append('* **%s** – %s' % (x.get('property') or x.get('id'), x.get('reason')))
out += ['', '## Appendix B: genuine defects, repaired ("fix:" commits in /repo)', '', '| property | commit | what failed |', '|---|---|---|']
for x in kf:
    if x['status'] == 'fixed':
        out.append('| %s | %s | %s |' % (x['property'], x['commit'], x['what'].replace('|', '/')))
out += ['', '## Appendix C: open findings', '']
for x in kf:
    if x['status'] != 'fixed':
        out.append('* **%s** `%s`: %s' % (x['property'], x['key'], x['what']))
out += ['', '## Appendix D: planted bugs (seeded/) and the checks that report them', '', 'Each was confirmed in a scratch copy; the check named reports it (exit 1), and all other checks stay quiet unless named too.', '', '| planted bug | check | needs | breaks |', '|---|---|---|---|']
for m in sorted(glob.glob(D + '/seeded/*/meta.json')):
    x = json.load(open(m))
    out.append('| %s | %s%s | %s | %s |' % (m.split('/')[-2], x['property'], ' (not reported)' if x.get('missed') else '', x['needs'].replace('|', '/'), x['what_it_breaks'].replace('|', '/')))
open(D + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
