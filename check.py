#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--n N] [--wall S] [--slots K] | --replay FILE | --selftest"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get('PYTHONHASHSEED') is None:           # one fixed hash seed per run unless the caller chose one
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
from dst import seams  # noqa: E402

QUANGURU = seams.load()

from dst import child, evidence, findings, runner  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--n', type=int)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--slots', type=int, default=max(2, min(16, os.cpu_count() or 2)))
    ap.add_argument('--minimise', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true', help='do not rewrite the evidence file')
    a = ap.parse_args()
    if a.replay:
        rep, res = runner.replay(a.replay)
        if res['status'] == 'violation':
            same = (res.get('class'), res.get('detail')) == (rep['violation']['class'], rep['violation']['detail'])
            print('%s: %s' % (res['class'], res['detail']))
            print('reproduced exactly' if same else 'reproduced with a different description')
            print('VIOLATION property=%s replay=%s' % (rep['property'], os.path.abspath(a.replay)))
            return 1
        print('not reproduced: ' + res['status'] + ' ' + str(res.get('detail', '')))
        return 0 if res['status'] == 'ok' else 2
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.monotonic()
    known, kerr = findings.check(a.prop)
    for line in known:
        print(line)
    agg, bad, errors, samples = runner.explore(a.prop, tier, a.seed, a.slots, a.n, a.wall, first=a.first)
    bad = [b for b in bad if not findings.suppressed(a.prop, b[1], b[2])]
    code = 0
    viol = []
    if bad:
        key, case, res = bad[0]
        print('%s, run %s: %s' % (a.prop, key, res['detail']))
        secs = a.minimise if a.minimise is not None else (25 if tier == 'quick' else 240)
        path, small, sres = runner.report_violation(a.prop, case, res, secs, a.slots)
        print('minimised: %s: %s' % (sres.get('class'), sres.get('detail')))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        viol = [{'seed': case['seed'], 'class': r.get('class'), 'detail': r.get('detail'), 'replay': path if k == key else ''}
                for k, case, r in bad]
        code = 1
    elif errors or kerr:
        for key, case, res in errors[:3]:
            print('ERROR in the harness, run %s: %s' % (key, res['detail']))
        for line in kerr:
            print('ERROR: ' + line)
        code = 2
    elif agg['ok'] < max(1, min(agg['planned'], 20)):
        print('ERROR: only %d of %d runs gave an answer' % (agg['ok'], agg['planned']))
        code = 2
    if not a.keep:
        evidence.write(a.prop, tier, a.seed, agg, samples, viol, known, time.monotonic() - t0, a.slots)
    print('%s %s: %d runs, %d ok, %d checks, %.1f s' % (a.prop, tier, agg['runs'], agg['ok'], agg['checked'], agg['wall']))
    return code


sys.exit(main())
