"""Properties of simulation runs: C01 C02 C03 C04 C05 C10 C11 C12 C13."""
import copy

import numpy as np

from .. import gen as G
from .. import edits
from .. import model
from ..hub import H, SimHang
from ..prng import derive
from ..ref import RefError, fresh_hub
from ..session import Session, Violation, brief, close, dense2, lib, same, short, unwrap

POLICIES = ['random', 'random', 'random', 'breadth', 'depth', 'stall0', 'single']


# ---- reference executions (run in pristine processes) ---------------------------------------------------------------

def _q():
    import quanguru
    return quanguru


def ref_serial(spec, ops):
    """The same session with every run executed serially: one dump (or error) per run."""
    fresh_hub()
    s = Session(_q(), spec)
    res = []
    for o in ops:
        if o['op'] == 'run':
            o = dict(o, p=False, cc=None, faults=[])
        out = s.apply(o)
        if o['op'] == 'run':
            res.append(('error', short(out.exc)) if out.exc is not None else ('ok', s.dump(out)))
    return res


def ref_point(spec, sets):
    """A separate simulation whose parameters are simply set to the values of one sweep point."""
    fresh_hub()
    s = Session(_q(), dict(copy.deepcopy(spec), sweeps=[]))
    for path, val in sets:
        s.set(path, val)
    out = s.run({'p': False})
    if out.exc is not None:
        raise RefError(short(out.exc))
    return s.dump(out)


def ref_session(spec, ops):
    """The same session, without the operations marked as failing: the dump of every remaining run."""
    fresh_hub()
    s = Session(_q(), spec)
    res = []
    for o in ops:
        if o.get('failing'):
            continue
        out = s.apply(o)
        if o['op'] == 'run':
            res.append(('error', short(out.exc)) if out.exc is not None else ('ok', s.dump(out)))
    return res


# ---- helpers --------------------------------------------------------------------------------------------------------

def parallel_op(r, **kw):
    cpu = r.choice([1, 2, 3, 4, 6, 8])
    x = r.random()
    o = {'op': 'run', 'cpu': cpu, 'policy': r.choice(POLICIES), 'sched': r.randrange(1 << 30)}
    if x < 0.35:
        o.update(p=True)
        if r.random() < 0.3:
            o['cc'] = r.choice(['all', 1, 2])
    elif x < 0.75:
        o.update(p=True, cc=r.choice([1, 2, 3, 5]))
    else:
        o.update(p='pool', np=r.choice([1, 2, 4]))
    o.update(kw)
    return o


def sweep_edit(r, spec):
    """Change the values of an existing sweep, drop the last sweep, or nothing."""
    if not spec.get('sweeps'):
        return []
    i = r.randrange(len(spec['sweeps']))
    sw = spec['sweeps'][i]
    x = r.random()
    rg = sw.get('range')
    if rg and sw['paths'][0][-1] not in ('dim', 'rate') and x < 0.7:
        by = r.choice([0.2, -0.15, 0.5])
        new = dict(rg, min=round(rg['min'] + by, 6), max=round(rg['max'] + by, 6))
        ops = [{'op': 'rangevals', 'i': i, 'range': new}]
        if sweeps_ok(apply_ops_to_spec(spec, ops), npoints_of(spec)):
            return ops
    if x < 0.25:                # whether it is swept together with the one before or for every value of it
        o = {'op': 'setcomb', 'i': i, 'comb': not sw.get('comb')}
        if i > 0 and sweeps_ok(apply_ops_to_spec(spec, [o]), npoints_of(spec) + 2):
            return [o]
    if x < 0.5:                 # another number of values, for all that are swept together
        lo = i
        while lo > 0 and not spec['sweeps'][lo].get('comb'):
            lo -= 1
        hi = lo + 1
        while hi < len(spec['sweeps']) and not spec['sweeps'][hi].get('comb'):
            hi += 1
        n = r.choice([1, 2, 3, 4])
        ops = [{'op': 'sweepvals', 'i': k, 'values': [r.choice(spec['sweeps'][k]['values']) for _ in range(n)]}
               for k in range(lo, hi)]
        if sweeps_ok(apply_ops_to_spec(spec, ops), npoints_of(spec) + 2):
            return ops
    if len(sw['paths']) == 1 and sw['paths'][0][-1] == 'freq':
        vals = [G.freq(r) for _ in sw['values']]
        return [{'op': 'sweepvals', 'i': i, 'values': vals}]
    return []


def sweeps_ok(spec, most):
    """What is swept together has the same number of values, and the number of points stays small."""
    groups = []
    for sw in spec.get('sweeps', []):
        if sw.get('comb') or not groups:
            groups.append(len(sw['values']))
        elif groups[-1] != len(sw['values']):
            return False
    return npoints_of(spec) <= max(most, 6)


def param_edit(r, spec):
    s = r.randrange(len(spec['systems']))
    ps = G.static_freq_paths(spec, s)
    swept = {str(p) for sw in spec.get('sweeps', []) for p in sw['paths']}
    ps = [p for p in ps if str(p) not in swept]
    if not ps or has_fixed(spec):
        return []
    return [{'op': 'set', 'path': r.choice(ps), 'val': G.freq(r), 'alias': r.random() < 0.3}]


def apply_ops_to_spec(spec, ops):
    """The spec after a list of operations, without executing anything."""
    spec = copy.deepcopy(spec)
    for o in ops:
        if o['op'] == 'set':
            model.put(spec, o['path'], o['val'])
        elif o['op'] == 'sweepvals':
            spec['sweeps'][o['i']]['values'] = o['values']
            spec['sweeps'][o['i']].pop('range', None)
        elif o['op'] == 'rangevals':
            spec['sweeps'][o['i']].update(range=o['range'], values=G.range_values(o['range']))
        elif o['op'] == 'setcomb':
            spec['sweeps'][o['i']]['comb'] = o['comb']
        elif o['op'] == 'rmsweep':
            spec['sweeps'].pop(o['i'])
        elif o['op'] == 'addsweep':
            spec.setdefault('sweeps', []).append(o['sweep'])
        elif o['op'] in edits.ALL or o['op'] in edits.COMPOSE:
            edits.spec_edit(spec, o)
    return spec


def has_fixed(spec):
    """A fixed step keeps its evolution whatever changes, by definition; histories with such steps make no changes."""
    return any(st.get('fixed') for p in spec['protocols'] for st in G.flat_steps(p))


def features(spec):
    f = []
    for pro in spec['protocols']:
        kinds = sorted({st['kind'] + ('+u' if st.get('updates') else '') + ('+f' if st.get('fixed') else '') +
                        ('+s' if st.get('samples', 1) > 1 else '') for st in G.flat_steps(pro)})
        f.append((pro['kind'], model.is_open(pro), kinds))
    f.append([sorted(p[-1] for p in sw['paths']) + [bool(sw.get('comb')), len(sw['values'])]
              for sw in spec.get('sweeps', [])])
    f.append((model.has_td(spec), len(spec.get('tdsweeps', [])), spec['sim'].get('mode'),
              [len(s['leaves']) for s in spec['systems']]))
    return f


# ---- C01 ------------------------------------------------------------------------------------------------------------

class C01:
    runs = {'quick': 900, 'thorough': 12000}

    @staticmethod
    def gen(r, tier):
        spec = G.spec(r, cond=True, opened=r.random() < 0.2, maxtotal=6, maxpoints=8 if tier == 'quick' else 14,
                      samples=False, evol=True)
        ops = []
        if r.random() < 0.3:
            ops.append({'op': 'run', 'p': False})
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < 0.3:
                cur = apply_ops_to_spec(spec, ops)
                ops += sweep_edit(r, cur) or param_edit(r, cur)
            o = parallel_op(r)
            if r.random() < 0.15 and any(x['op'] == 'run' and x.get('p') for x in ops):
                o = {'op': 'run', 'p': None, 'cpu': o['cpu'], 'policy': o['policy'], 'sched': o['sched']}
            ops.append(o)
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def execute(case, ctx):
        try:
            refs = ctx.ref.call(ref_serial, case['spec'], case['ops'])
        except RefError as e:
            raise Violation('unexpected-error', 'building the session raised %s' % e) from None
        s = Session(_q(), case['spec'])
        ctx.sig('spec', features(case['spec']))
        i = 0
        for o in case['ops']:
            if o['op'] != 'run':
                s.apply(o)
                continue
            before = s.params()
            out = s.run(o)
            ctx.note_run(out)
            kind, exp = refs[i]
            i += 1
            what = 'run %d (p=%s)' % (i, o.get('p'))
            if kind == 'error':
                raise Violation('unexpected-error', 'the serial run %d raised %s' % (i, exp))
            s.check_ok(out, what)
            got = s.dump(out)
            m = same(got, exp)
            if m:
                raise Violation('differs', '%s differs from the serial run: %s' % (what, m))
            if out.parallel:
                ctx.sig('par', features(s.spec), o.get('p'), o.get('cc'), o.get('policy'))
                after = s.params()
                m = same({k: v for k, v in after.items() if before[k] is not None},
                         {k: v for k, v in before.items() if v is not None})
                if m:
                    raise Violation('caller-params', '%s changed a parameter of the caller\'s objects: %s' % (what, m))
                n = 1
                for k in model.points(s.spec)[0]:
                    n *= k
                done = s.evolutions(out)
                if any(c['owner'] == 'sim' and c['when'] == 'pre' for c in s.spec.get('cbs', [])) and len(done) != n:
                    raise Violation('evolutions', '%s: %d evolutions for %d sweep points' % (what, len(done), n))
            ctx.checked += 1
            s.reset_swept()


# ---- C02 ------------------------------------------------------------------------------------------------------------

class C02:
    runs = {'quick': 650, 'thorough': 9000}

    @staticmethod
    def gen(r, tier):
        spec = G.spec(r, cond=True, opened=r.random() < 0.2, maxtotal=6, maxpoints=6 if tier == 'quick' else 12, samples=False,
                      fixed=False, evol=True)
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.random()
            if ops and x < 0.25:
                ops += sweep_edit(r, apply_ops_to_spec(spec, ops))
            elif ops and x < 0.35 and spec.get('sweeps'):
                cur = apply_ops_to_spec(spec, ops)
                if cur['sweeps']:
                    ops.append({'op': 'rmsweep', 'i': len(cur['sweeps']) - 1})
            elif ops and x < 0.5:
                ops += param_edit(r, apply_ops_to_spec(spec, ops))
            if r.random() < 0.45:
                ops.append(parallel_op(r))
            else:
                ops.append({'op': 'run', 'p': False, 'noreset': r.random() < 0.5})
        for i, o in enumerate(ops):
            if o.get('noreset') and (i + 1 >= len(ops) or ops[i + 1]['op'] != 'run'):
                o['noreset'] = False
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def execute(case, ctx):
        s = Session(_q(), case['spec'])
        cache = {}
        i = 0
        for o in case['ops']:
            if o['op'] != 'run':
                s.apply(o)
                continue
            i += 1
            out = s.run(o)
            ctx.note_run(out)
            what = 'run %d (p=%s)' % (i, o.get('p'))
            s.check_ok(out, what)
            got = s.dump(out)
            shape, pts = model.points(s.spec)
            ctx.sig(features(s.spec), bool(o.get('p')), i)
            calc = {}
            for idx, sets in pts:
                key = repr((s.spec['systems'], s.spec['sim'], sets))
                if key not in cache:
                    try:
                        cache[key] = ctx.ref.call(ref_point, s.spec, sets)
                    except RefError as e:
                        raise Violation('unexpected-error', 'a separate simulation of point %s raised %s' % (
                            idx, e)) from None
                ref = cache[key]
                for sec in ref:
                    if sec == 'returned':
                        continue
                    if sec.endswith('.calculated'):
                        for k, v in ref[sec].items():
                            calc.setdefault((sec, k), []).extend(v if isinstance(v, list) else [v])
                        continue
                    want = dict(ref[sec])
                    for k in set(got[sec]) - set(want):
                        if k.startswith('cond_'):       # recorded at other points only
                            want[k] = []
                    if set(got[sec]) != set(want):
                        raise Violation('keys', '%s: %s has keys %s, a separate simulation has %s' % (
                            what, sec, sorted(got[sec]), sorted(want)))
                    for k, v in want.items():
                        node = got[sec][k]
                        if v == [] and node == []:
                            continue
                        for depth, n in enumerate(idx):
                            if not isinstance(node, list) or len(node) != shape[depth]:
                                raise Violation('shape', '%s: %s[%s] has %s entries where the sweep has %d' % (
                                    what, sec, k, len(node) if isinstance(node, list) else 'no', shape[depth]))
                            node = node[n]
                        m = same(node, v[0] if idx and isinstance(v, list) and len(v) == 1 else v)
                        if m:
                            raise Violation('differs', '%s: %s[%s] at index %s differs from a separate simulation: %s' % (
                                what, sec, k, idx, m))
                ctx.checked += 1
            for (sec, k), v in calc.items():
                m = same(unwrap(got[sec].get(k)), unwrap(v))
                if m:
                    raise Violation('differs', '%s: %s[%s] differs from the separate simulations: %s' % (what, sec, k, m))
            if not o.get('noreset'):
                s.reset_swept()


# ---- C03 ------------------------------------------------------------------------------------------------------------

def fault(r, spec, parallel, npoints, nsteps):
    """One fault that makes a run fail, and how to recognise it."""
    kinds = ['cb', 'cb', 'alloc', 'cb']
    if parallel:
        kinds += ['pool', 'interrupt', 'unpicklable', 'death']
    kind = r.choice(kinds)
    if kind == 'cb':
        cbs = [c for c in spec['cbs']]
        sites = [('%s.%s' % (c['owner'], c['when']), c['when']) for c in cbs]
        if model.has_td(spec):
            sites += [('td', 'td')] * 2
        if not sites:
            return fault_alloc(r)
        site, when = r.choice(sites)
        late = [x for x in sites if x[1] in ('pre', 'post') and not x[0].startswith('sim')]
        if late and r.random() < 0.25:          # between the callbacks of several objects
            site, when = max(late) if r.random() < 0.5 else r.choice(late)
        k = r.randint(1, max(1, nsteps)) if when in ('compute', 'td') else 1
        exc = r.choice(['ValueError', 'RuntimeError', 'MemoryError', 'OSError', 'CustomError', 'StopIteration',
                        'IndexError', 'AttributeError', 'KeyboardInterrupt', 'SystemExit', 'KeyboardInterrupt'])
        if site == 'td' and exc in ('ValueError',):
            exc = 'RuntimeError'
        return {'kind': 'cb_raise', 'site': site, 'point': r.randrange(npoints), 'k': k, 'exc': exc}
    if kind == 'pool':
        return {'kind': 'pool_create_fail', 'errno': r.choice([11, 12, 24])}
    if kind == 'interrupt':
        return {'kind': 'parent_interrupt', 'after': r.randrange(npoints)}
    if kind == 'unpicklable':
        return {'kind': 'unpicklable'}
    if kind == 'death':
        return {'kind': 'worker_death', 'task': r.randrange(npoints), 'when': r.choice(['before', 'after'])}
    return fault_alloc(r)


def fault_alloc(r):
    return {'kind': 'alloc', 'n': r.randint(1, 14), 'where': r.choice([None, 'kron', 'expm', 'expm'])}


EXPECT = {'pool_create_fail': ('OSError', 'BlockingIOError'), 'parent_interrupt': ('KeyboardInterrupt',),
          'alloc': ('MemoryError',), 'unpicklable': ('TypeError',)}


def npoints_of(spec):
    n = 1
    for k in model.points(spec)[0]:
        n *= k
    return n


class C03:
    runs = {'quick': 650, 'thorough': 10000}

    @staticmethod
    def gen(r, tier):
        spec = G.spec(r, cond=True, opened=r.random() < 0.15, maxtotal=6, maxpoints=6, samples=False, fullcbs=r.random() < 0.5)
        n = npoints_of(spec)
        steps = model.steps_of(spec['sim'])[1]
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < 0.4:
                ops.append(parallel_op(r) if r.random() < 0.4 else {'op': 'run', 'p': False})
            par = r.random() < 0.45
            f = fault(r, spec, par, n, steps)
            o = parallel_op(r) if par else {'op': 'run', 'p': False}
            if f['kind'] == 'pool_create_fail':
                while o['p'] == 'pool':
                    o = parallel_op(r)
            o['failing'] = True
            if f['kind'] == 'unpicklable':
                own = r.choice([c for c in spec['cbs']])
                ops.append({'op': 'cb', 'c': own, 'cls': 'Unpicklable', 'failing': True})
                o['unpicklable'] = True
                ops.append(o)
                ops.append({'op': 'cb', 'c': own, 'failing': True})
            else:
                o['faults'] = [f]
                ops.append(o)
            if r.random() < 0.25:
                ops += param_edit(r, spec)
            if r.random() < 0.6:
                ops.append({'op': 'run', 'p': False})
            else:
                o = parallel_op(r)
                if r.random() < 0.2:
                    o = dict(o, p=None, cc=None)
                ops.append(o)
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def execute(case, ctx):
        try:
            refs = ctx.ref.call(ref_session, case['spec'], case['ops'])
        except RefError as e:
            raise Violation('unexpected-error', 'the session without failures raised %s' % e) from None
        s = Session(_q(), case['spec'])
        i = 0
        failed = None
        for n, o in enumerate(case['ops']):
            if o['op'] != 'run':
                s.apply(o)
                continue
            out = s.apply(o)
            ctx.note_run(out)
            if isinstance(out.exc, SimHang):
                raise Violation('hang', 'operation %d never ends: %s' % (n, out.exc))
            if o.get('failing'):
                f = (o.get('faults') or [{'kind': 'unpicklable'}])[0]
                fired = bool(out.fired) or (o.get('unpicklable') and out.parallel)
                if fired and out.exc is None:
                    raise Violation('swallowed', 'operation %d: the run returned normally although %s' % (n, describe(f)))
                if not fired and out.exc is not None:
                    raise Violation('unexpected-error', 'operation %d raised %s' % (n, short(out.exc)))
                if fired:
                    failed = f
                    exp = EXPECT.get(f['kind']) or (f.get('exc'),)
                    name = type(out.exc).__name__
                    # a worker that is gone, and StopIteration crossing a pool, can only be reported as some error
                    lost = f['kind'] == 'worker_death' or out.parallel and f.get('exc') in (
                        'KeyboardInterrupt', 'SystemExit', 'StopIteration')
                    if name not in exp and not o.get('unpicklable') and not lost:
                        raise Violation('other-error', 'operation %d: %s, but the caller got %s' % (
                            n, describe(f), short(out.exc)))
                    ctx.sig(f['kind'], f.get('exc'), f.get('site'), f.get('where'), out.parallel, f.get('k'), f.get('n'))
                continue
            kind, exp = refs[i]
            i += 1
            if kind == 'error':
                raise Violation('unexpected-error', 'the session without failures raised %s' % exp)
            what = 'operation %d, %s' % (n, 'after %s' % describe(failed) if failed else 'no failure so far')
            s.check_ok(out, what)
            m = same(s.dump(out), exp)
            if m:
                raise Violation('trace-of-failure', '%s: results differ from the session without the failure: %s' % (
                    what, m))
            s.check_trace(out, s.expect()[1], what)
            ctx.checked += 1


def describe(f):
    if f['kind'] == 'cb_raise':
        return '%s was raised by %s (call %d, point %d)' % (f['exc'], f['site'], f['k'], f['point'])
    if f['kind'] == 'alloc':
        return 'allocation %d%s failed' % (f['n'], ' in ' + f['where'] if f.get('where') else '')
    return {'pool_create_fail': 'the pool could not be created', 'parent_interrupt': 'the run was interrupted',
            'unpicklable': 'a callback cannot be sent to a worker',
            'worker_death': 'a worker process died'}.get(f['kind'], f['kind'])


# ---- C04 ------------------------------------------------------------------------------------------------------------

class C04:
    runs = {'quick': 1700, 'thorough': 20000}

    @staticmethod
    def gen(r, tier):
        spec = G.spec(r, cond=True, opened=r.random() < 0.15, maxtotal=6, maxpoints=6, fullcbs=r.random() < 0.6, samples=False)
        if r.random() < 0.15:
            spec['sim']['del'] = True
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            if ops and r.random() < 0.3:
                ops += param_edit(r, spec)
            if r.random() < 0.25:        # a run that fails must not disturb the callbacks of the next one
                f = fault(r, spec, False, npoints_of(spec), model.steps_of(spec['sim'])[1])
                ops.append({'op': 'run', 'p': False, 'failing': True, 'faults': [f]})
            ops.append(parallel_op(r) if r.random() < 0.4 else {'op': 'run', 'p': False})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def execute(case, ctx):
        model_runs(case, ctx, trace=True, states=False, results=True)


def model_runs(case, ctx, trace=False, states=True, results=False, times=False, physical=False, params=False):
    s = Session(_q(), case['spec'])
    n = 0
    for o in case['ops']:
        if o['op'] != 'run':
            if o['op'] == 'read':
                try:
                    s.apply(o)
                except MemoryError:
                    pass
            else:
                s.apply(o)
            continue
        n += 1
        out = s.run(o)
        ctx.note_run(out)
        what = 'run %d (p=%s)' % (n, o.get('p'))
        if o.get('failing'):
            if isinstance(out.exc, SimHang):
                raise Violation('hang', '%s never ends: %s' % (what, out.exc))
            if out.exc is not None and not out.fired:
                raise Violation('unexpected-error', '%s raised %s' % (what, short(out.exc)))
            if out.exc is not None:
                ctx.sig('failing', [(f['kind'], f.get('site'), f.get('exc'), f.get('k')) for f in o['faults']])
        else:
            s.check_ok(out, what)
            shape, evs = s.expect()
            if physical:
                check_physical(s, shape, evs, what)
            if states:
                s.check_states(shape, evs, what)
            if trace or times:
                try:
                    pairs = s.check_trace(out, evs, what)
                except Violation:
                    if not trace:
                        pairs = []
                    else:
                        raise
                if times:
                    s.check_times(pairs, what)
            if results:
                s.check_results(shape, evs, what, results if isinstance(results, tuple) else None)
            ctx.sig(features(s.spec), bool(o.get('p')), n)
            ctx.checked += len(evs)
        s.reset_swept()
        if params:
            check_params(s, what)


# ---- C05 ------------------------------------------------------------------------------------------------------------

class C05:
    runs = {'quick': 1300, 'thorough': 20000}

    @staticmethod
    def gen(r, tier):
        tds = r.random() < 0.35
        spec = G.spec(r, td=not tds or r.random() < 0.5, tds=tds, opened=r.random() < 0.12, maxtotal=6, maxpoints=5,
                      samples=False, fixed=r.random() < 0.1)
        for c in ('pre', 'compute'):
            if not any(x['owner'] == 'sim' and x['when'] == c for x in spec['cbs']):
                spec['cbs'].insert(0, {'owner': 'sim', 'when': c, 'recs': []})
        ops = []
        for _ in range(r.choice([1, 2, 2, 3])):
            x = r.random()
            if x < 0.3:
                par = r.random() < 0.3
                o = parallel_op(r) if par else {'op': 'run', 'p': False}
                o.update(failing=True, faults=[fault(r, spec, False, npoints_of(spec),
                                                     model.steps_of(spec['sim'])[1])])
                ops.append(o)
            elif x < 0.45 and ops:
                ops += param_edit(r, spec)
            elif x < 0.6:
                i = r.randrange(len(spec['protocols']))
                ops.append({'op': 'read', 'what': 'unitary', 'i': i})
            ops.append(parallel_op(r) if r.random() < 0.35 else {'op': 'run', 'p': False})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def execute(case, ctx):
        model_runs(case, ctx, trace=False, times=True, states=True, results=('ham', 'samples'))


# ---- C12 ------------------------------------------------------------------------------------------------------------

def check_params(s, what):
    """Every parameter that is neither swept nor time dependent has the value the user gave it."""
    for path in scalar(s):
        obj, attr, conv = s.w.target(path)
        with lib():
            got = getattr(obj, attr)
        exp = s.base(path)
        if got is None or abs(got - exp) > 1e-12:
            raise Violation('parameter', 'after %s, %s is %s, its own value is %s' % (what, path, got, exp))


def scalar(s):
    from ..session import scalar_paths
    out = []
    for p in scalar_paths(s.spec):
        if p[0] == 'sim' or p[-1] not in ('freq', 'angle', 'ratio', 'phase', 'dim'):
            continue
        out.append(p)
    return out


class C12:
    runs = {'quick': 1600, 'thorough': 20000}

    @staticmethod
    def gen(r, tier):
        for _ in range(30):
            spec = G.spec(r, td=r.random() < 0.15, tds=False, updates=True, fixed=r.random() < 0.4,
                          opened=r.random() < 0.12, maxtotal=6, maxpoints=5, samples=r.random() < 0.1)
            if any(st.get('updates') or st.get('fixed') or st.get('ratio') or st['kind'] in ('copy', 'hc')
                   for p in spec['protocols'] for st in G.flat_steps(p)):
                break
        ops = []
        for _ in range(r.choice([1, 2, 2, 3])):
            x = r.random()
            if x < 0.3:
                ops.append({'op': 'run', 'p': False, 'failing': True,
                            'faults': [fault_alloc(r) if r.random() < 0.7 else
                                       fault(r, spec, False, npoints_of(spec), model.steps_of(spec['sim'])[1])]})
            elif x < 0.5 and ops:
                ops += update_edit(r, spec) if r.random() < 0.5 else param_edit(r, spec)
            elif x < 0.7:
                ops.append({'op': 'read', 'what': 'unitary', 'i': r.randrange(len(spec['protocols']))})
            ops.append(parallel_op(r) if r.random() < 0.3 else {'op': 'run', 'p': False})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def execute(case, ctx):
        model_runs(case, ctx, states=True, params=True)


def update_edit(r, spec):
    """Change what an update of a step sets, or how long a step lasts."""
    out = []
    fixed = {u.get('shared') for pro in spec['protocols'] for st in G.flat_steps(pro) if st.get('fixed')
             for u in st.get('updates', [])} - {None}          # a fixed step is created once, whatever happens to its update
    for p, pro in enumerate(spec['protocols']):
        for k, st in enumerate(pro.get('steps') or []):
            for j, u in enumerate(st.get('updates', [])):
                if not st.get('fixed') and u.get('shared') not in fixed:
                    out.append({'op': 'set', 'path': ['protocols', p, 'steps', k, 'updates', j, 'value'],
                                'val': G.freq(r)})
            if st['kind'] == 'free' and not st.get('fixed'):
                out.append({'op': 'set', 'path': ['protocols', p, 'steps', k, 'ratio'],
                            'val': r.choice([0.5, 2, 1, 1.5])})
    return [r.choice(out)] if out else []


# ---- C13 ------------------------------------------------------------------------------------------------------------

def check_physical(s, shape, evs, what):
    from ..callbacks import dense
    if s.spec['sim'].get('del'):
        return
    for p, pro in enumerate(s.spec['protocols']):
        got = s.w.sim.states[s.state_key(p)]
        for ev in evs:
            node = got
            for i in ev['idx']:
                node = node[i]
            for k, st in enumerate(node if isinstance(node, list) else [node]):
                v = dense(st)
                lab = '%s: protocol %d point %s step %d' % (what, p, ev['idx'], k)
                if not np.all(np.isfinite(v)):
                    raise Violation('unphysical', lab + ': not finite')
                if not model.is_open(pro):
                    nrm = float(np.vdot(v, v).real) if v.ndim == 1 else float('nan')
                    if not abs(nrm - 1) < 1e-7:
                        raise Violation('unphysical', '%s: norm %s' % (lab, nrm))
                    continue
                if v.ndim != 2 or v.shape[0] != v.shape[1]:
                    raise Violation('unphysical', '%s: shape %s is no density matrix' % (lab, v.shape))
                if abs(np.trace(v) - 1) > 1e-7:
                    raise Violation('unphysical', '%s: trace %s' % (lab, np.trace(v)))
                if np.max(np.abs(v - v.conj().T)) > 1e-7:
                    raise Violation('unphysical', '%s: not Hermitian' % lab)
                if np.min(np.linalg.eigvalsh((v + v.conj().T) / 2)) < -1e-7:
                    raise Violation('unphysical', '%s: negative eigenvalue %s' % (
                        lab, np.min(np.linalg.eigvalsh((v + v.conj().T) / 2))))


class C13:
    runs = {'quick': 1300, 'thorough': 20000}

    @staticmethod
    def gen(r, tier):
        spec = G.spec(r, opened=r.random() < 0.5, maxtotal=6 if tier == 'quick' else 9, maxpoints=5,
                      samples=r.random() < 0.05, cbs=r.random() < 0.3)
        spec.setdefault('cbs', [])
        ops = []
        for _ in range(r.choice([1, 2, 2, 3])):
            x = r.random()
            if x < 0.2:
                ops.append({'op': 'run', 'p': False, 'failing': True, 'faults': [fault_alloc(r)]})
            elif x < 0.65 and ops:
                ops += any_edit(r, apply_ops_to_spec(spec, ops))
            ops.append(parallel_op(r) if r.random() < 0.3 else {'op': 'run', 'p': False})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def execute(case, ctx):
        model_runs(case, ctx, states=True, physical=True)


def any_edit(r, spec):
    """A change of any parameter that is not swept and whose step is not fixed."""
    swept = {str(p) for sw in spec.get('sweeps', []) + spec.get('tdsweeps', []) for p in sw['paths']}
    cand = [p for p in edit_paths(spec) if str(p) not in swept]
    if not cand or has_fixed(spec):
        return []
    kinds = sorted({p[-1] for p in cand})
    kind = r.choice(kinds)
    path = r.choice([p for p in cand if p[-1] == kind])
    val = {'freq': lambda: G.freq(r), 'rate': lambda: r.choice([0, 0.2, 0.9, 2]), 'temp': lambda: r.choice([0, 0.4, 1.5]),
           'bfreq': lambda: r.choice([0.4, 1, 1.7]),
           'ratio': lambda: r.choice([0.5, 2, 1, 1.5]), 'angle': lambda: r.choice([0.3, 1.2, -0.6]),
           'phase': lambda: r.choice([1, -1, 0.5]), 'order': lambda: r.choice([1, 2]),
           'dt': lambda: r.choice([0.1, 0.25, 0.4]), 'axis': lambda: r.choice('xyz'),
           'ops': lambda: [r.choice(['Jx', 'Jz', 'number', 'Jy']) for _ in range(2)],
           'orders': lambda: [r.choice([1, 2]) for _ in range(2)],
           'init': lambda: rand_init(r, spec, path), 'op': lambda: r.choice(['Jx', 'Jy', 'Jz', 'number'])}[kind]()
    return [{'op': 'set', 'path': path, 'val': val, 'alias': r.random() < 0.3}]


def rand_init(r, spec, path):
    sysm = spec['systems'][path[1] if path[0] == 'systems' else spec['protocols'][path[1]]['sys']]
    if sysm['comp']:
        return [G.leaf_init(r, lf['dim'], False) for lf in sysm['leaves']]
    return G.leaf_init(r, sysm['leaves'][0]['dim'], False)


def edit_paths(spec):
    out = []
    dimswept = any(p[-1] in ('dim', 'jValue', 'init') for sw in spec.get('sweeps', []) for p in sw['paths'])
    for s in range(len(spec['systems'])):
        out += G.static_freq_paths(spec, s)
        for k, d in enumerate(spec['systems'][s].get('diss', [])):
            out.append(['systems', s, 'diss', k, 'rate'])
            if 'temp' in d:
                out.append(['systems', s, 'diss', k, 'temp'])
        for k in range(len(spec['systems'][s].get('baths', []))):
            out += [['systems', s, 'baths', k, 'temp'], ['systems', s, 'baths', k, 'bfreq']]
        for i, lf in enumerate(spec['systems'][s]['leaves']):
            for j, t in enumerate(lf['terms']):
                out.append(['systems', s, 'leaves', i, 'terms', j, 'order'])
                if t['op'] not in model.PAULI and not any(
                        c['kind'] != 'term' and i in c['leaves'] for c in spec['systems'][s].get('couplings', [])):
                    out.append(['systems', s, 'leaves', i, 'terms', j, 'op'])
        for k, c in enumerate(spec['systems'][s].get('couplings', [])):
            if c['kind'] == 'term':
                out += [['systems', s, 'couplings', k, 'ops'], ['systems', s, 'couplings', k, 'orders']]
        if not dimswept:
            out.append(['systems', s, 'init'])
    for p, pro in enumerate(spec['protocols']):
        if pro.get('init') is not None and not dimswept:
            out.append(['protocols', p, 'init'])
        for k, st in enumerate(pro.get('steps') or []):
            if st.get('fixed'):
                continue
            if st['kind'] == 'free' and not any(x['kind'] == 'hc' and x['of'] == k for x in pro['steps']):
                out.append(['protocols', p, 'steps', k, 'ratio'])
            elif st['kind'] in ('rot', 'xgate'):
                out.append(['protocols', p, 'steps', k, 'angle'])
                out.append(['protocols', p, 'steps', k, 'axis'])
                if st['kind'] == 'rot':
                    out.append(['protocols', p, 'steps', k, 'phase'])
    if spec['sim'].get('T') is not None and not spec.get('tdsweeps') and not any(
            p[0] == 'sim' for sw in spec.get('sweeps', []) for p in sw['paths']):
        out.append(['sim', 'dt'])
    return out
