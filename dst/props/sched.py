"""C10 (every run ends, with the requested workers, all released) and C11 (what was handed out never changes)."""
import copy

from .. import gen as G
from .. import model
from ..hub import H, SimHang
from ..session import Session, Violation, brief, freeze, short
from .runs import (POLICIES, _q, apply_ops_to_spec, check_params, fault, features, npoints_of, param_edit, parallel_op,
                   sweep_edit)

FAIL_EXC = ['ValueError', 'RuntimeError', 'MemoryError', 'KeyboardInterrupt', 'SystemExit', 'StopIteration', 'CustomError']


def evolutions_of(spec):
    return npoints_of(spec)


def bound_of(spec):
    """Ten times the callbacks a run can need."""
    _, evs_n = model.steps_of(spec['sim'])
    return 10 * (len(spec.get('cbs', [])) + 1) * (3 * evs_n + 5) * max(1, npoints_of(spec)) + 200


class Multi:
    """Several sessions in one process, and what the library should remember between their runs."""

    def __init__(self, case):
        self.s = [Session(_q(), sp) for sp in case['worlds']]
        self.sticky = {None}

    def __getitem__(self, i):
        return self.s[i]


# ---- C10 ------------------------------------------------------------------------------------------------------------

def requested(o, sticky):
    """Worker counts a run may use: a set of numbers, 0 for a serial run; None when the request cannot be met."""
    p, cc, cpu = o.get('p'), o.get('cc'), o.get('cpu', 4)
    if p is False:
        return {0}
    if p == 'pool':
        return {o.get('np', 2)}
    if p is None:
        return {0 if x is None else x for x in sticky}
    default = max(cpu - 1, 1)
    if cc is None:
        return {default if x is None else x for x in sticky}
    if isinstance(cc, str):
        return {default}
    return {cc} if cc >= 1 else None


def c10_faults(r, spec, o):
    n = npoints_of(spec)
    steps = model.steps_of(spec['sim'])[1]
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.choice(['cb', 'cb', 'death', 'death', 'idle', 'interrupt', 'pool', 'alloc', 'stall'])
        if k == 'cb':
            c = r.choice(spec['cbs'])
            out.append({'kind': 'cb_raise', 'site': '%s.%s' % (c['owner'], c['when']), 'point': r.randrange(n),
                        'k': r.randint(1, steps) if c['when'] == 'compute' else 1, 'exc': r.choice(FAIL_EXC)})
        elif k == 'death':
            out.append({'kind': 'worker_death', 'task': r.randrange(n), 'when': r.choice(['before', 'after'])})
        elif k == 'idle':
            out.append({'kind': 'idle_death', 'after': r.randrange(n + 1), 'which': r.randrange(4)})
        elif k == 'interrupt':
            out.append({'kind': 'parent_interrupt', 'after': r.randrange(n)})
        elif k == 'pool':
            if o.get('p') != 'pool':
                out.append({'kind': 'pool_create_fail', 'errno': r.choice([11, 12, 24])})
        elif k == 'alloc':
            out.append({'kind': 'alloc', 'n': r.randint(1, 10), 'where': r.choice([None, 'expm'])})
        else:
            out.append({'kind': 'stall', 'after': r.randrange(n), 'ticks': r.choice([3, 40, 400, 4000])})
    return out


def c10_run(r, spec):
    o = {'op': 'run', 'cpu': r.choice([1, 2, 3, 4, 6, 8]), 'policy': r.choice(POLICIES), 'sched': r.randrange(1 << 30)}
    x = r.random()
    if x < 0.15:
        o['p'] = False
    elif x < 0.35:
        o['p'] = None
    elif x < 0.6:
        o['p'] = True
    elif x < 0.85:
        o.update(p=True, cc=r.choice([1, 2, 3, 5, 'all', 'ALL']))
    else:
        o.update(p='pool', np=r.choice([1, 2, 3]))
    if r.random() < 0.06:
        o.update(p=True, cc=r.choice([0, -1]))
    if r.random() < 0.4:
        o['faults'] = c10_faults(r, spec, o)
    elif r.random() < 0.15:
        o['faults'] = [{'kind': 'stall', 'after': r.randrange(npoints_of(spec)), 'ticks': r.choice([3, 40, 400, 4000])}]
    if r.random() < 0.2:
        o['via'] = 'runSimulation'
    o['bound'] = bound_of(spec)
    return o


HARMLESS = {'workers_stalled', 'idle_worker_death'}


class C10:
    runs = {'quick': 1600, 'thorough': 24000}

    @staticmethod
    def gen(r, tier):
        worlds = []
        for _ in range(r.choice([1, 1, 2])):
            sp = G.spec(r, aux=False, td=r.random() < 0.15, tds=False, opened=False, maxtotal=4, maxpoints=r.choice([1, 4, 12]), maxsteps=3,
                        samples=False, npro=r.choice([1, 1, 2]), fixed=False)
            for c in ('pre', 'compute'):
                if not any(x['owner'] == 'sim' and x['when'] == c for x in sp['cbs']):
                    sp['cbs'].insert(0, {'owner': 'sim', 'when': c, 'recs': []})
            if r.random() < 0.15:
                sp['sweeps'] = []
            worlds.append(sp)
        ops = []
        for _ in range(r.choice([1, 2, 3, 3, 4])):
            w = r.randrange(len(worlds))
            if ops and r.random() < 0.2:
                cur = apply_ops_to_spec(worlds[w], [o for o in ops if o['w'] == w])
                ops += [dict(x, w=w) for x in sweep_edit(r, cur) or param_edit(r, cur)]
            ops.append(dict(c10_run(r, apply_ops_to_spec(worlds[w], [o for o in ops if o['w'] == w])), w=w))
        return {'worlds': worlds, 'ops': ops}

    @staticmethod
    def execute(case, ctx):
        m = Multi(case)
        for n, o in enumerate(case['ops']):
            s = m[o['w']]
            if o['op'] != 'run':
                s.apply(o)
                continue
            out = s.run(o)
            ctx.note_run(out)
            C10.judge(m, s, n, o, out, ctx)
            s.reset_swept()

    @staticmethod
    def judge(m, s, n, o, out, ctx):
        what = 'operation %d (p=%s%s)' % (n, o.get('p'), ', coreCount=%s' % o['cc'] if o.get('cc') is not None else '')
        if isinstance(out.exc, SimHang):
            raise Violation('hang', '%s never ends: %s' % (what, out.exc))
        want = requested(o, m.sticky)
        hard = {k: v for k, v in out.fired.items() if k not in HARMLESS}
        soft = bool(out.fired) and not hard
        # workers
        if any(out.left):
            raise Violation('leak', '%s: %d worker process(es) are still there after the run %s' % (
                what, sum(out.left), 'returned' if out.exc is None else 'raised'))
        counts = [p._processes for p in out.pools]
        if want is None:
            if out.exc is None:
                raise Violation('workers', '%s returned normally with %s workers' % (what, counts))
            ctx.checked += 1
            return
        if len(counts) > 1:
            raise Violation('workers', '%s started %d pools (%s workers)' % (what, len(counts), counts))
        used = counts[0] if counts else 0
        created = bool(counts) or not out.fired.get('pool_create_fail')
        through = o.get('p') == 'pool' and not counts and out.by_caller_pool     # worked in the caller's own pool
        early = out.exc is not None and not counts                               # failed before a pool was needed
        if created and not through and not early and used not in want:
            raise Violation('workers', '%s used %s worker(s), %s requested' % (
                what, used, ' or '.join(str(x) for x in sorted(want))))
        if o.get('p') == 'pool' and out.caller_ok is not True:
            raise Violation('caller-pool', '%s: the pool of the caller cannot be used any more (%s)' % (what, out.caller_ok))
        # outcome
        if out.exc is None and hard:
            raise Violation('swallowed', '%s returned normally although %s' % (what, sorted(hard)))
        if out.exc is not None and not out.fired:
            raise Violation('unexpected-error', '%s raised %s' % (what, short(out.exc)))
        # the work
        shape, evs = s.expect()
        done = s.evolutions(out)
        if out.exc is None:
            s.check_trace(out, evs, what)
            if used == 0 and not through:
                bad = [t for t, _, _ in done if t is not None]
                if bad:
                    raise Violation('workers', '%s is serial but worked in a worker process' % what)
            elif any(t is None for t, _, _ in done):
                raise Violation('workers', '%s: points were computed outside the requested workers' % what)
        elif len(done) > len(evs):
            raise Violation('evolutions', '%s: %d evolutions were started for %d sweep points' % (what, len(done), len(evs)))
        # what the next run may use
        if used:
            m.sticky = {used} if out.exc is None else m.sticky | {used}
        elif through:
            m.sticky = m.sticky | {o['np']} if out.exc is not None else {o['np']} | m.sticky
        if o.get('p') is None and used and out.exc is None:
            m.sticky = {used}
        if soft:
            H.probe('survived_' + '_'.join(sorted(out.fired)))
        ctx.sig(o.get('p'), o.get('cc'), o.get('policy'), used, sorted(out.fired), out.exc is None, len(evs) > used,
                len(m.s), n)
        ctx.checked += 1


# ---- C11 ------------------------------------------------------------------------------------------------------------

class Held:
    """References to what a user got hold of, with private copies of the contents at that moment."""

    def __init__(self):
        self.items = []

    def take(self, s, label, out):
        got = [(label + ' returned value', out.ret)]
        for tag in s.tags():
            o = s.w.owner(tag)
            for name, d in (('resultsDict', o.resultsDict), ('results', o.qRes.resultsDict), ('states', o.qRes.states),
                            ('calculated', o.qRes.calculated)):
                got.append(('%s %s.%s' % (label, tag, name), d))
                for key, val in list(d.items()):
                    got.append(('%s %s.%s[%s]' % (label, tag, name, key), val))
                    self.deep('%s %s.%s[%s]' % (label, tag, name, key), val, got)
        for i, p in enumerate(s.w.protocols):
            if not s.spec['protocols'][i].get('default'):
                got.append(('%s pro%d.currentState' % (label, i), p.currentState))
        for lab, ref in got:
            self.items.append((lab, ref, freeze(ref)))

    def deep(self, lab, val, got, depth=0):
        """Inner lists can be held on their own (results[key][2])."""
        if isinstance(val, list) and depth < 2:
            for i, x in enumerate(val[:3]):
                if isinstance(x, list):
                    got.append(('%s[%d]' % (lab, i), x))
                    self.deep('%s[%d]' % (lab, i), x, got, depth + 1)

    def check(self, after):
        from ..session import differs
        for lab, ref, old in self.items:
            new = freeze(ref)
            m = differs(new, old)
            if m is None and isinstance(old, dict) and set(new) != set(old):
                m = 'keys %s, were %s' % (sorted(new), sorted(old))
            if m:
                raise Violation('handed-out', '%s changed after %s: %s' % (lab, after, m))


def exact_keys(s, what):
    """Nobody has a result under a name that its own callbacks did not record, or states that are not its own."""
    spec = s.spec
    dels = dropped(spec)
    exp = {t: {'results': set(), 'calculated': set(), 'states': set()} for t in s.tags()}
    for c in spec.get('cbs', []):
        for kind, key in [x[:2] for x in c['recs']]:
            exp[c['owner']]['calculated' if kind == 'calc' else 'results'].add(key)
            if kind == 'pair':
                exp[c['owner']]['results'].add(key + '_mean')
    for p, pro in enumerate(spec['protocols']):
        if dels[p]:
            continue
        exp['sim']['states'].add(s.state_key(p))
        exp['sys%d' % pro['sys'] if pro.get('default') else 'pro%d' % p]['states'].add(s.state_key(p))
    for tag, want in exp.items():
        o = s.w.owner(tag)
        same_res = [t for t in s.tags() if s.w.owner(t).qRes is o.qRes]
        for name, d in (('results', o.qRes.resultsDict), ('calculated', o.qRes.calculated), ('states', o.qRes.states)):
            w = set().union(*(exp[t][name] for t in same_res))
            got = {str(k) for k, v in d.items() if not (isinstance(v, list) and not v)}
            if got != w:
                raise Violation('mixed', '%s: %s of %s are stored under %s, expected %s' % (
                    what, name, tag, sorted(got), sorted(w)))


def dropped(spec):
    return [pro['del'] if pro.get('del') is not None else bool(spec['sim'].get('del')) for pro in spec['protocols']]


def c11_check(s, out, what):
    s.check_ok(out, what)
    shape, evs = s.expect()
    dels = dropped(s.spec)
    keep = [not d for d in dels]
    check_states(s, shape, evs, what, keep)
    s.check_results(shape, evs, what)
    exact_keys(s, what)


def check_states(s, shape, evs, what, keep):
    sp = s.spec
    saved = sp['sim'].get('del')
    sp['sim']['del'] = False
    try:
        s.check_states(shape, evs, what, keep)
    finally:
        if saved is None:
            sp['sim'].pop('del')
        else:
            sp['sim']['del'] = saved


class C11:
    runs = {'quick': 700, 'thorough': 12000}

    @staticmethod
    def gen(r, tier):
        worlds = []
        for _ in range(r.choice([1, 2, 2])):
            worlds.append(G.spec(r, aux=False, opened=r.random() < 0.15, maxtotal=4, maxpoints=r.choice([1, 4, 6]), maxsteps=3,
                                 samples=r.random() < 0.2, fixed=False, fullcbs=r.random() < 0.3))
        ops = []
        for _ in range(r.choice([2, 3, 4, 5])):
            w = r.randrange(len(worlds))
            sp = apply_ops_to_spec(worlds[w], [o for o in ops if o.get('w') == w and o['op'] != 'keep'])
            x = r.random()
            if x < 0.3:
                ops += [dict(o, w=w) for o in sweep_edit(r, sp) or param_edit(r, sp)]
            elif x < 0.42:
                k = r.choice(['sim'] + ['pro%d' % i for i, p in enumerate(sp['protocols']) if not p.get('default')])
                ops.append({'op': 'keep', 'w': w, 'who': k, 'del': r.random() < 0.7})
            elif x < 0.5:
                ops.append({'op': 'read', 'what': 'unitary', 'i': r.randrange(len(sp['protocols'])), 'w': w})
            elif x < 0.7:
                o = parallel_op(r) if r.random() < 0.4 else {'op': 'run', 'p': False}
                f = fault(r, sp, False, npoints_of(sp), model.steps_of(sp['sim'])[1])
                ops.append(dict(o, w=w, failing=True, faults=[f]))
            ops.append(dict(parallel_op(r) if r.random() < 0.4 else {'op': 'run', 'p': False}, w=w))
        return {'worlds': worlds, 'ops': ops}

    @staticmethod
    def execute(case, ctx):
        m = Multi(case)
        held = Held()
        last = None
        for n, o in enumerate(case['ops']):
            s = m[o['w']]
            what = 'operation %d (%s of simulation %d)' % (n, o['op'] if o['op'] != 'run' else
                                                           'failing run' if o.get('failing') else 'run', o['w'])
            if o['op'] == 'keep':
                if o['who'] == 'sim':
                    s.spec['sim']['del'] = o['del']
                    s.w.sim.delStates = o['del']
                else:
                    i = int(o['who'][3:])
                    s.spec['protocols'][i]['del'] = o['del']
                    s.w.protocols[i].simDelStates = o['del']
                held.check(what)
                continue
            if o['op'] != 'run':
                s.apply(o)
                held.check(what)
                continue
            out = s.run(o)
            ctx.note_run(out)
            if isinstance(out.exc, SimHang):
                raise Violation('hang', '%s never ends: %s' % (what, out.exc))
            if o.get('failing') and out.fired:
                last = None
                if out.exc is None:
                    raise Violation('swallowed', '%s returned normally although %s' % (what, sorted(out.fired)))
            else:
                c11_check(s, out, what)
                s.check_results(*s.expect(), what, ('state', 'samples'))      # what the callbacks held on to
                held.check(what)
                held.take(s, 'simulation %d, run %d:' % (o['w'], n), out)
            held.check(what)
            s.reset_swept()
            held.check('the parameters were put back after ' + what)
            ctx.checked += len(held.items)
            ctx.sig(features(s.spec), bool(o.get('p')), len(m.s), o.get('failing'), dropped(s.spec))
