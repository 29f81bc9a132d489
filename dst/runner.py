"""Runs many simulated runs, each in its own process, and turns the first violation into a minimised replay file."""
import collections
import json
import os
import select
import signal
import sys
import time
import traceback

from . import child, ref
from .minimise import minimise
from .prng import derive, rng

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Slot:
    def __init__(self, key, case, timeout):
        self.key, self.case = key, case
        self.t0 = time.monotonic()
        self.deadline = self.t0 + timeout
        self.buf = b''
        self.r, w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.setsid()
                os.close(self.r)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                try:
                    res = child.run_case(case)
                except BaseException as e:  # pylint: disable=broad-except
                    res = {'status': 'error', 'detail': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])}
                data = json.dumps(res, default=str).encode()
                while data:
                    data = data[os.write(w, data):]
                code = 0
            finally:
                os._exit(code)
        os.close(w)

    def finish(self, kill=False):
        os.close(self.r)
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        _, st = os.waitpid(self.pid, 0)
        if kill:
            return {'status': 'timeout', 'detail': 'no result after %.0f s' % (time.monotonic() - self.t0)}
        try:
            return json.loads(self.buf)
        except ValueError:
            return {'status': 'died', 'detail': 'the process running the case ended with status %s' % st}


def run_many(cases, slots, timeout, wall=None, stop=None):
    """cases: iterator of (key, case).  Yields (key, case, result, seconds) in completion order."""
    live = []
    t0 = time.monotonic()
    it = iter(cases)
    more = True
    try:
        while True:
            while more and len(live) < slots and not (wall and time.monotonic() - t0 > wall):
                try:
                    key, case = next(it)
                except StopIteration:
                    more = False
                    break
                live.append(Slot(key, case, timeout))
            if wall and time.monotonic() - t0 > wall:
                more = False
            if not live:
                return
            now = time.monotonic()
            wait = max(0.0, min(s.deadline for s in live) - now)
            ready, _, _ = select.select([s.r for s in live], [], [], min(wait, 1.0))
            for s in list(live):
                res = None
                if s.r in ready:
                    data = os.read(s.r, 1 << 20)
                    if data:
                        s.buf += data
                        continue
                    res = s.finish()
                elif time.monotonic() > s.deadline:
                    res = s.finish(kill=True)
                if res is not None:
                    live.remove(s)
                    yield s.key, s.case, res, time.monotonic() - s.t0
                    if stop is not None and stop():
                        return
    finally:
        for s in live:
            s.finish(kill=True)


def run_one(case, timeout=120):
    for _, _, res, _ in run_many([(0, case)], 1, timeout):
        return res
    return {'status': 'died', 'detail': 'not run'}


def case_of(prop, seed, i, tier):
    """One seed is one case: everything random in it is derived from (property, seed, index)."""
    p = child.props()[prop]
    case = p.gen(rng(prop, seed, i), tier)
    case['prop'] = prop
    case['seed'] = '%s/%s/%s' % (prop, seed, i)
    return json.loads(json.dumps(case))


def explore(prop, tier, seed, slots, n=None, wall=None, quiet=False, first=0):
    p = child.props()[prop]
    n = n or p.runs[tier]
    if wall is None:
        wall = getattr(p, 'wall', {}).get(tier, 150 if tier == 'quick' else 3000)
    t0 = time.monotonic()
    agg = {'runs': 0, 'ok': 0, 'fired': collections.Counter(), 'probes': collections.Counter(), 'steps': 0, 'simtime': 0.0,
           'sched_events': 0, 'runsigs': set(), 'schedules': set(), 'sigs': set(), 'pools': 0, 'checked': 0, 'secs': []}
    bad, errors, samples = [], [], []
    suspicious, notmade = [], []

    def cases():
        for i in range(first, first + n):
            try:
                case = case_of(prop, seed, i, tier)
            except Exception as e:  # pylint: disable=broad-except
                notmade.append((i, repr(e)))        # a hole in the exploration, not a verdict; reported below
                continue
            yield i, case
    timeout = getattr(p, 'timeout', 90)
    for key, case, res, secs in run_many(cases(), slots, timeout, wall, stop=lambda: len(bad) >= 6 or len(errors) > 6):
        agg['runs'] += 1
        agg['secs'].append(secs)
        st = res.get('stats', {})
        for k in ('fired', 'probes'):
            agg[k].update(st.get(k, {}))
        for k in ('steps', 'simtime', 'sched_events', 'pools', 'checked'):
            agg[k] += st.get(k, 0)
        agg['schedules'].update(st.get('schedules', []))
        agg['sigs'].update(st.get('sigs', []))
        if st.get('checked') or res['status'] == 'violation':
            agg['runsigs'].add(derive(json.dumps([st.get('sigs'), st.get('schedules'), st.get('fired'), st.get('checked')])))
        if res['status'] == 'ok':
            agg['ok'] += 1
            if len(samples) < 12:
                samples.append({'seed': case['seed'], 'ops': [o.get('op') for o in case.get('ops', [])],
                                'checked': st.get('checked', 0), 'fired': st.get('fired', {})})
                if len(samples) <= 3:
                    samples[-1]['case'] = case
        elif res['status'] == 'violation':
            bad.append((key, case, res))
        elif res['status'] in ('timeout', 'died'):
            suspicious.append((key, case, res))
        else:
            errors.append((key, case, res))
    # a case that gave no answer is tried again on its own, with a generous limit, before anything is concluded
    for key, case, res in suspicious[:2]:
        again = run_one(case, timeout * 2)
        if again['status'] == 'violation':
            bad.append((key, case, again))
        elif again['status'] in ('timeout', 'died'):
            again['class'] = 'hang' if again['status'] == 'timeout' else 'crash'
            again['detail'] = ('the run never ends: ' if again['status'] == 'timeout' else '') + again['detail']
            again['status'] = 'violation'
            bad.append((key, case, again))
        elif again['status'] == 'error':
            errors.append((key, case, again))
        else:
            agg['ok'] += 1
            agg['retried'] = agg.get('retried', 0) + 1
    bad.sort(key=lambda b: b[0])
    if notmade:
        print('note: %d cases could not be generated, first: %s' % (len(notmade), notmade[0]))
        if len(notmade) > max(2, n // 50):
            errors.append((notmade[0][0], {}, {'detail': notmade[0][1]}))
    agg['wall'] = time.monotonic() - t0
    agg['planned'] = n
    return agg, bad, errors, samples


def report_violation(prop, case, res, minimise_secs, slots):
    """Minimise, write the replay file, and return its path."""
    small, sres, tried = case, res, 0
    if minimise_secs > 0 and res.get('class') not in ('hang', 'crash'):
        small, sres, tried = minimise(case, res, run_many, slots, minimise_secs)
    path = os.path.join(HERE, 'replays', '%s-%s.json' % (prop, derive(json.dumps(case, sort_keys=True)) % 10 ** 10))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': case['seed'], 'violation': {'class': sres.get('class'),
                                                                        'detail': sres.get('detail')},
                   'case': small, 'original_case': case, 'minimisation_runs': tried}, f, indent=1)
    return path, small, sres


def replay(path, quiet=False):
    with open(path) as f:
        rep = json.load(f)
    res = run_one(rep['case'], 200)
    return rep, res
