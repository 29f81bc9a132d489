"""Tries planted bugs: python tools/seeded.py [--no-tests] [--checks own|all|C01,C02] [--jobs N] ID...

For each: a scratch copy of /repo with the patch applied, the stable tests there, the demo on both trees, the checks on the
copy. Prints one line per bug. Development tool only; no registered command uses it.
"""
import argparse
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def tests(copy):
    rep = tempfile.mkdtemp(prefix='sdrep_')
    env = {'PATH': os.environ['PATH'], 'HOME': '/root', 'LANG': 'C.UTF-8', 'PYTHONHASHSEED': '0',
           'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': '/opt/vp/plugins:' + copy + '/src', 'OMP_NUM_THREADS': '1',
           'OPENBLAS_NUM_THREADS': '1', 'MPLBACKEND': 'Agg'}
    ps = []
    for name, args in (('toolbox', ['tests/QuantumToolbox']), ('integration', ['tests/classes/Integration']),
                       ('rest', ['tests', '--ignore=tests/QuantumToolbox', '--ignore=tests/classes/Integration'])):
        ps.append(subprocess.Popen([PY, '-m', 'pytest', '-q', '--rootdir=' + copy, '-p', 'no:cacheprovider', '-p', 'vp_seed',
                                    '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
                                    '--junitxml=%s/%s.xml' % (rep, name)] + args,
                                   cwd=copy, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in ps:
        p.wait()
    out = rep + '/out.json'
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:%s/*.xml' % rep], stdout=subprocess.DEVNULL)
    got = json.load(open(out))
    want = json.load(open('/opt/vp/BASELINE.json'))
    shutil.rmtree(rep)
    return compare(got, want)


def flat(d):
    for k in ('tests', 'results'):
        if isinstance(d, dict) and k in d:
            return flat(d[k])
    if isinstance(d, dict) and 'passed' in d:
        return set(d['passed'])
    if isinstance(d, dict) and 'stable' in d:
        return set(d['stable'])
    if isinstance(d, dict):
        return {k for k, v in d.items() if v in ('passed', 'pass', True)}
    return set(d)


def compare(got, want):
    return sorted(flat(want) - flat(got))


def one(sid, opt):
    d = os.path.join(HERE, 'seeded', sid)
    meta = json.load(open(d + '/meta.json'))
    copy = tempfile.mkdtemp(prefix='sd_%s_' % sid)
    shutil.rmtree(copy)
    subprocess.check_call(['cp', '-a', '/repo', copy])
    res = {'id': sid, 'property': meta['property']}
    try:
        r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=copy, capture_output=True, text=True)
        if r.returncode:
            res['apply'] = r.stderr[-300:]
            return res
        env = dict(os.environ, PYTHONPATH=copy + '/src')
        if not opt.no_demo:
            a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
            b = subprocess.run(['bash', d + '/demo.sh'], cwd=copy, env=env, capture_output=True, text=True)
            res['demo'] = [a.returncode, b.returncode]
            if a.returncode:
                res['demo_clean'] = (a.stdout + a.stderr)[-800:]
            res['demo_out'] = (b.stdout + b.stderr)[-300:]
        if not opt.no_tests:
            bad = tests(copy)
            res['tests'] = 'ok' if not bad else bad[:5]
        checks = {'own': [meta['property']], 'all': ['C%02d' % i for i in range(1, 15)], 'none': []}.get(opt.checks) or \
            ([c for c in opt.checks.split(',') if c] if opt.checks != 'none' else [])
        res['checks'] = {}
        for c in checks:
            t = time.time()
            env = dict(os.environ, DST_REPO=copy, VERIF_SEED=str(opt.seed), VERIF_TIER='quick')
            p = subprocess.run([PY, HERE + '/check.py', c, '--keep', '--minimise', '5'] + (['--slots', str(opt.slots)] if opt.slots else []),
                               cwd=HERE, env=env, capture_output=True, text=True)
            line = [x for x in p.stdout.splitlines() if x.startswith('VIOLATION')]
            res['checks'][c] = [p.returncode, round(time.time() - t), line[:1],
                                '' if p.returncode == 0 else p.stdout[-500:] if p.returncode == 1 else (p.stdout + p.stderr)[-500:]]
    finally:
        shutil.rmtree(copy, ignore_errors=True)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--no-tests', action='store_true')
    ap.add_argument('--no-demo', action='store_true')
    ap.add_argument('--checks', default='own')
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--slots', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('-v', action='store_true')
    opt = ap.parse_args()
    ids = opt.ids or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(HERE + '/seeded/*/meta.json'))
    with concurrent.futures.ThreadPoolExecutor(opt.jobs) as ex:
        for res in ex.map(lambda i: one(i, opt), ids):
            print(res['id'], res['property'], {k: v for k, v in res.items() if k not in ('id', 'property', 'checks', 'demo_out')})
            if opt.v:
                print('   demo:', res.get('demo_out'))
            for c, v in res.get('checks', {}).items():
                print('   %s exit %d in %d s %s' % (c, v[0], v[1], v[2][0] if v[2] else ''))
                if opt.v and v[3]:
                    print('      ' + v[3].replace('\n', '\n      '))
            sys.stdout.flush()


if __name__ == '__main__':
    main()
