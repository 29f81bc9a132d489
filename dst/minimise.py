"""Delta debugging of a failing case: fewer operations, sweeps, steps, callbacks, faults, scheduler decisions."""
import copy
import json
import re
import time


def size(case):
    return len(json.dumps(case))


def removals(x, path=()):
    """Paths of list elements and optional dict entries that may be dropped, biggest first."""
    out = []
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ('prop', 'seed'):
                continue
            if k in OPTIONAL:
                out.append((size(v), path + (k,)))
            out += removals(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            out.append((size(v), path + (i,)))
            if isinstance(v, (dict, list)):
                out += removals(v, path + (i,))
    return out


OPTIONAL = {'td', 'updates', 'recs', 'alias', 'ratio', 'phase', 'impl', 'tdsweeps', 'sweeps', 'faults', 'cc', 'tree',
            'order', 'fixed', 'diss', 'comb', 'temp', 'del', 'samples', 'times', 'policy', 'choices', 'cbs', 'couplings'}


def without(case, path):
    c = copy.deepcopy(case)
    cur = c
    for p in path[:-1]:
        cur = cur[p]
    del cur[path[-1]]
    return c


def simpler(case):
    """Single simplifications, the most effective first."""
    for _, path in sorted(removals(case), key=lambda t: -t[0]):
        try:
            yield without(case, path)
        except (KeyError, IndexError, TypeError):
            continue
    for o_i, o in enumerate(case.get('ops', [])):
        for key, vals in (('policy', ['depth']), ('cpu', [2]), ('sched', [0]), ('np', [1]), ('p', [False])):
            if key in o and o[key] not in vals and not (key == 'p' and o[key] in (None,)):
                for v in vals:
                    c = copy.deepcopy(case)
                    c['ops'][o_i][key] = v
                    yield c


def kind(res):
    """What must stay the same while a case shrinks: the class of the violation, and for errors which error it is."""
    if res.get('class') in ('unexpected-error', 'malformed'):
        return res.get('class'), re.sub(r'[0-9.]+', '#', str(res.get('detail')))
    return res.get('class')


def minimise(case, res, run_many, slots, secs):
    """Greedy parallel reduction that keeps the class of the violation; bounded by wall-clock time."""
    t0 = time.monotonic()
    best, best_res = case, res
    tried = 0
    progress = True
    while progress and time.monotonic() - t0 < secs:
        progress = False
        cands = [c for c in simpler(best) if size(c) < size(best) or True]
        hit = []

        def stop():
            return bool(hit) or time.monotonic() - t0 > secs
        for _, c, r, _ in run_many(enumerate(cands), slots, 60, max(1.0, secs - (time.monotonic() - t0)), stop):
            tried += 1
            if r['status'] == 'violation' and kind(r) == kind(res):
                hit.append((c, r))
                break
        if hit and (size(hit[0][0]), json.dumps(hit[0][0])) < (size(best), json.dumps(best)):
            best, best_res = hit[0]
            progress = True
    return best, best_res, tried
