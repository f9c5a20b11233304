#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the definitions in props.py.
A property is claimed when mc/checks/<id>.py exists."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE]
from props import PROPS  # noqa
import gen_design  # noqa

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['all']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'mechanism': [{'name': n, 'where': w}
                              for n, w in p['mechanism']],
                'observe_at': p['observe'],
                'hook_needed': None}}) + '\n')
checks, na = [], []
for p in PROPS:
    i = p['id']
    if os.path.exists(os.path.join(VERIF, 'mc', 'checks', i.lower() + '.py')):
        run = '/opt/venv/bin/python mc/run.py %s ' % i
        checks.append({
            'property': i, 'quick_cmd': run + 'quick',
            'thorough_cmd': run + 'thorough',
            'evidence_file': 'evidence/%s.json' % i,
            'technique': p['technique'],
            'level': p.get('level', 'model_checking'),
            'level_note': p['note']})
    else:
        na.append({'property': i, 'reason': p.get(
            'na', 'No check has been built for it yet.')})
man = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python tools/setup.py',
    'checks': checks, 'not_applicable': na,
    'notes': 'No hooks are needed: every check drives the code of /repo '
             'through its own interfaces. Codecs written for Python 2 run '
             'under Jython, the rest under Python 3; C++ is rebuilt from '
             '/repo into a scratch directory on every run.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
gen_design.write(PROPS, VERIF)
print('%d properties, %d claimed' % (len(PROPS), len(checks)))
