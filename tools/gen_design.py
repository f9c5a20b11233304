"""DESIGN.md = design_head.md + a section per property + the table of planted
bugs."""
import glob
import importlib
import json
import os
import sys


def write(props, verif):
    sys.path[:0] = [os.path.join(verif, 'mc')]
    here = os.path.join(verif, 'tools')
    out = [open(os.path.join(here, 'design_head.md')).read(),
           '\n## The properties\n']
    bugs = {}
    for m in sorted(glob.glob(os.path.join(verif, 'seeded', '*', 'meta.json'))):
        d = json.load(open(m))
        bugs.setdefault(d['property'], []).append(
            (os.path.basename(os.path.dirname(m)), d))
    path = os.path.join(here, 'catches.json')
    catches = json.load(open(path)) if os.path.exists(path) else {}
    for p in props:
        i = p['id']
        out.append('\n### %s %s\n' % (i, p['title']))
        if not os.path.exists(os.path.join(verif, 'mc', 'checks',
                                           i.lower() + '.py')):
            out.append('Not applicable: %s\n' % p.get('na', ''))
            continue
        mod = importlib.import_module('checks.' + i.lower())
        b = mod.BOUNDS if isinstance(mod.BOUNDS, dict) else \
            {'both tiers': mod.BOUNDS}
        out.append('*Decided by* %s.\n' % p['technique'])
        out.append('*Oracle*: %s\n' % p.get('oracle', ORACLE.get(i, '')))
        for t, text in b.items():
            out.append('*Bounds (%s)*: %s.\n' % (t, text))
        out.append('*Cost*: about %s quick.\n' % p.get('cost', COST.get(i, '30 s')))
        out.append('*Beyond tests*: %s\n' % p['why'])
        out.append('*Limits*: %s\n' % p['note'])
    out.append('\n## Planted bugs\n\nEach lies in `seeded/<id>`; the last '
               'column names the quick checks that report it.\n\n'
               '| bug | property | what it needs | caught by |\n'
               '|---|---|---|---|\n')
    for i in sorted(bugs):
        for name, d in bugs[i]:
            out.append('| %s | %s | %s | %s |\n' % (
                name, i, d['needs'].replace('|', '/'),
                ', '.join(catches.get(name, [])) or 'none'))
    with open(os.path.join(verif, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(x.rstrip('\n') if x.startswith('|') else x
                          for x in out).replace('|\n\n|', '|\n|') )
        f.write('\n')


RT = 'the set of (name, value) pairs that went in'
ORACLE = {
    'C01': RT, 'C03': RT, 'C05': RT, 'C07': RT,
    'C02': 'jy/ref_http2.py, an independent bounded decoder',
    'C04': 'jy/ref_headerdiff.py, an independent bounded decoder',
    'C06': 'jy/ref_delta2.py, an independent bounded decoder',
    'C08': 'a string of bits and a read position',
    'C09': 'the prefix-code axioms (Kraft sum 1, no prefix), an independent '
           'optimum, and the text itself',
}
COST = {'C01': '10 s', 'C02': '14 s', 'C03': '18 s', 'C04': '19 s',
        'C05': '40 s', 'C06': '40 s', 'C07': '32 s', 'C08': '26 s',
        'C09': '32 s'}
