#!/opt/venv/bin/python
"""Determinism of the simulator: the same cases give identical outcomes whatever the slots, order and hash seed."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
if len(sys.argv) > 1 and sys.argv[1] == '--child':
    prop, n, slots, rev = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5] == '1'
    from dst import seams
    seams.load()
    from dst import runner
    order = list(range(n))
    if rev:
        order.reverse()
    out = {}
    for key, case, res, _ in runner.run_many(((i, runner.case_of(prop, '7', i, 'quick')) for i in order), slots, 120):
        out[key] = {k: v for k, v in res.items() if k not in ('secs',)}
    print(json.dumps(out, sort_keys=True, default=str))
    sys.exit(0)
n = sys.argv[1] if len(sys.argv) > 1 else '60'
props = sys.argv[2:] or ['C%02d' % i for i in range(1, 16)]
bad = 0
for p in props:
    outs = []
    for slots, rev, hs in (('8', '0', '0'), ('3', '1', '0'), ('8', '0', '1')):
        r = subprocess.run([sys.executable, __file__, '--child', p, n, slots, rev],
                           env=dict(os.environ, PYTHONHASHSEED=hs), stdout=subprocess.PIPE, check=True)
        outs.append(json.loads(r.stdout))
    for k in outs[0]:
        for o, what in ((outs[1], 'slots/order'), (outs[2], 'hash seed')):
            if outs[0][k] != o[k]:
                bad += 1
                d = [x for x in set(outs[0][k]) | set(o[k]) if outs[0][k].get(x) != o[k].get(x)]
                if 'stats' in d:
                    d += [y for y in outs[0][k]['stats'] if outs[0][k]['stats'][y] != o[k]['stats'].get(y)]
                print(p, k, 'differs by', what, d)
    print(p, 'compared', len(outs[0]))
sys.exit(1 if bad else 0)
