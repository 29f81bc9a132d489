"""Writes MANIFEST.json from properties.jsonl and the list of properties that have a check."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
from dst import seams
seams.load()
from dst import child
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
have = child.props()
NOTE = {
    'default': 'Seeded sampling of histories, schedules and faults against {oracle}; a clean batch is evidence, not proof. '
               'Trusts: the simulated process pool follows multiprocessing.pool.Pool, the small reference model, numpy/scipy.'}
ORACLE = {
    'C01': 'the serial execution of the same session in a pristine process',
    'C02': 'separate unswept simulations in pristine processes',
    'C03': 'the session without the failures, in a pristine process',
    'C04': 'the event sequence of an independent dense reference model',
    'C05': 'the times and states of an independent dense reference model',
    'C06': 'freshly built objects with the same description in a pristine process, and the dense reference model',
    'C07': 'an independent parser of the written files',
    'C08': 'an independent parser of the written files of every saver',
    'C09': 'a reference table of names and aliases',
    'C10': 'the recorded pool events (creation, hand-out, termination) and bounded progress',
    'C11': 'byte-for-byte copies of everything handed out',
    'C12': 'an independent dense reference model and the parameters the user gave',
    'C13': 'the invariants of physical states and an independent dense reference model',
    'C14': 'an executable reference model of the bindings',
    'C15': 'an independent dense reference model of the current contents and the simulation\'s own account of them',
}
NA = {
    'N01': 'pure functions of their arguments: no schedule, clock, I/O, fault or history for a simulator to decide '
           '(used as building blocks, they are cross-checked indirectly by C13)',
    'N02': 'pure functions of their arguments: no schedule, clock, I/O, fault or history for a simulator to decide'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % i,
            'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection (seeded schedules and faults, one forked process per run)',
            'level': 'exploration',
            'level_note': NOTE['default'].format(oracle=ORACLE[i])})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet (under construction)')})
doc = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import numpy, scipy"', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: every seam is installed from outside (dst/seams.py). Replay: check.py --replay FILE.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
