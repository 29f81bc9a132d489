"""C06: after any history of changes, reads, runs and failures, every matrix equals the one of a fresh build."""
import copy

import numpy as np

from .. import edits
from .. import gen as G
from .. import model
from ..hub import H
from ..ref import fresh_hub, in_fork
from ..session import Session, Violation, brief, close, lib, short
from .runs import (_q, any_edit, apply_ops_to_spec, edit_paths, fault, fault_alloc, features, npoints_of, parallel_op)


def ref_read(spec, items):
    """The same reads on freshly built objects; every read happens in a fork of its own, right after the creation."""
    fresh_hub()
    try:
        s = Session(_q(), dict(copy.deepcopy(spec), sweeps=[]))
    except Exception as e:  # pylint: disable=broad-except
        return [('error', short(e))] * len(items)
    return [in_fork(read_one, s, it)[1] for it in items]


def read_one(s, item):
    try:
        return ('ok', s.read(*item))
    except Exception as e:  # pylint: disable=broad-except
        return ('error', short(e))


def items_of(spec):
    out = [('times', 0, None)]
    for s, sysm in enumerate(spec['systems']):
        out += [('ham', s, None), ('init', s, None), ('dims', s, None), ('sysunit', s, None)]
        out += [('coupham', s, k) for k, c in enumerate(sysm.get('couplings', [])) if c['kind'] == 'term']
        out += [('termham', s, (i, j)) for i, lf in enumerate(sysm['leaves']) for j in range(len(lf['terms']))]
        out += [('jop', s, k) for k in range(len(sysm.get('diss', [])))]
        for i in range(len(sysm['leaves'])):
            out += [('leafham', s, i)] + ([('leafinit', s, i)] if not (sysm['comp'] and sysm.get('initarr')) else [])
    for p, pro in enumerate(spec['protocols']):
        if not any(st.get('samples', 1) > 1 for st in pro.get('steps') or []):
            out += [('unitary', p, None)]
        out += [('proinit', p, None)]
        if not model.is_open(pro):
            out += [('hc', p, None)]
            out += [('step', p, k) for k, st in enumerate(pro.get('steps') or [])]
    return out


def expected(spec, item):
    """What the dense reference model says about a read, or None when it says nothing."""
    what, i, j = item
    if what == 'ham':
        return model.hamiltonian(spec, i)
    if what == 'leafham':
        sysm = spec['systems'][i]
        leaf = sysm['leaves'][j]
        one = {'leaves': [leaf], 'couplings': [], 'comp': False}
        h = model.hamiltonian({'systems': [one]}, 0)
        return model.embed(sysm, j, h) if sysm['comp'] else h
    if what == 'coupham':
        sysm = spec['systems'][i]
        return model.hamiltonian({'systems': [dict(sysm, leaves=[dict(lf, terms=[]) for lf in sysm['leaves']],
                                                   couplings=[sysm['couplings'][j]])]}, 0)
    if what == 'termham':
        sysm = spec['systems'][i]
        leaf = sysm['leaves'][j[0]]
        h = model.hamiltonian({'systems': [{'leaves': [dict(leaf, terms=[leaf['terms'][j[1]]])], 'couplings': [],
                                            'comp': False}]}, 0)
        return model.embed(sysm, j[0], h)
    if what == 'jop':
        sysm = spec['systems'][i]
        d = sysm['diss'][j]
        return model.embed(sysm, d['leaf'], model.op(d['op'], sysm['leaves'][d['leaf']]['dim']))
    if what == 'dims':
        ds = model.dims(spec['systems'][i])
        return np.array(ds + [int(np.prod(ds))], dtype=complex)
    if what == 'times':
        dt, n = model.steps_of(spec['sim'])
        return np.arange(n + 1, dtype=complex) * dt
    if what == 'sysunit':
        return None
    if what == 'init':
        return model.initial_state(spec, i)
    if what == 'proinit':
        return model.initial_state(spec, spec['protocols'][i]['sys'], spec['protocols'][i].get('init'))
    if what == 'leafinit':
        sysm = spec['systems'][i]
        return model.leaf_state(sysm['leaves'][j]['dim'], sysm['init'][j] if sysm['comp'] else sysm['init'])
    pro = spec['protocols'][i]
    if model.is_open(pro):
        return None
    dt, _ = model.steps_of(spec['sim'])
    if what in ('unitary', 'hc'):
        u = model.protocol_unitary(spec, i, {})
        return u.conj().T if what == 'hc' else u
    if what == 'step':
        st = pro['steps'][j]
        if st['kind'] == 'nested':
            return model.step_unitary(spec, pro, st, dt, {})
        return model.step_unitary(spec, pro, st, dt, {})
    return None


class C06:
    runs = {'quick': 800, 'thorough': 24000}

    @staticmethod
    def gen(r, tier):
        nested = r.random() < 0.15
        spec = G.spec(r, td=False, tds=False, fixed=False, opened=r.random() < 0.25 and not nested,
                      maxtotal=16 if nested else 8, maxpoints=4, maxsteps=3, nested=nested,
                      samples=False, sweep=r.random() < 0.35, cbs=r.random() < 0.2)
        spec.setdefault('sweeps', [])
        spec.setdefault('cbs', [])
        for s, sysm in enumerate(spec['systems']):
            if sysm['comp'] and not sysm.get('tree') and not sysm.get('initarr') and r.random() < 0.2 and \
                    not any(p[:3] == ['systems', s, 'init'] for sw in spec['sweeps'] for p in sw['paths']) and \
                    not any(p.get('init') is not None for p in spec['protocols'] if p['sys'] == s):
                sysm['initby'] = 'leaves'
        ids = [1000]
        ops = []
        n = r.randint(2, 7) if tier == 'quick' else r.randint(3, 16)
        for _ in range(n):
            cur = apply_ops_to_spec(spec, ops)
            x = r.random()
            if any(sysm.get('diss') for sysm in cur['systems']) and r.random() < 0.3:
                ops += after_look(r, cur, ids) or edit(r, cur)
            elif x < 0.05:
                ops += exchange_edit(r, cur) or edit(r, cur)
            elif x < 0.30:
                ops += edit(r, cur)
            elif x < 0.48:
                ops += taken_apart(r, cur, ids) or (after_look(r, cur, ids) if r.random() < 0.5 else []) or edits.structural(r, cur, ids)
            elif x < 0.54:
                ops += same_edit(r, cur)
            elif x < 0.80:
                ops.append(read(r, cur))
            elif x < 0.88:
                o = read(r, cur)
                o['fault'] = fault_alloc(r)
                ops.append(o)
            elif x < 0.96:
                ops.append({'op': 'run', 'p': False} if r.random() < 0.7 else parallel_op(r))
            else:
                f = fault(r, cur, False, npoints_of(cur), model.steps_of(cur['sim'])[1]) if cur['cbs'] else fault_alloc(r)
                ops.append({'op': 'run', 'p': False, 'failing': True, 'faults': [f]})
        ops.append({'op': 'reads', 'items': None, 'order': r.randrange(1 << 30)})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def execute(case, ctx):
        import random
        s = Session(_q(), case['spec'])
        before = []
        for n, o in enumerate(case['ops']):
            if o['op'] == 'reads':
                items = items_of(s.spec) if o['items'] is None else [tuple(i) for i in o['items']]
                items = [i for i in items if valid(s.spec, i)]
                if o['items'] is None:
                    random.Random(o['order']).shuffle(items)
                f = o.get('fault')
                if f:
                    hit = False
                    H.alloc, H.alloc_calls = dict(f), 0
                    for it in items:
                        try:
                            with lib():
                                s.read(*it)
                        except MemoryError:
                            hit = True
                        H.lib_depth = 0
                    H.alloc = None
                    before.append(('failed read' if hit else 'read', [i[0] for i in items]))
                    continue
                refs = ctx.ref.call(ref_read, s.spec, items)
                for it, (kind, exp) in zip(items, refs):
                    what = 'operation %d: %s' % (n, describe_item(it))
                    try:
                        with lib():
                            got = s.read(*it)
                        err = None
                    except Exception as e:  # pylint: disable=broad-except
                        H.lib_depth = 0
                        got, err = None, short(e)
                    if kind == 'error':
                        if err is None:
                            raise Violation('unexpected-error', '%s: a freshly built object raises %s' % (what, exp))
                        H.probe('read_fails_fresh_too')
                        continue
                    if err is not None:
                        raise Violation('unexpected-error', '%s raised %s, a freshly built object does not' % (what, err))
                    if not close(got, exp, 1e-9):
                        raise Violation('stale', '%s is not that of a freshly built object: %s, fresh %s' % (
                            what, brief(got), brief(exp)))
                    m = expected(s.spec, it)
                    if m is not None:
                        m = np.asarray(m).reshape(-1) if it[0] in ('init', 'proinit', 'leafinit') else m
                        if not close(got, m, 1e-8):
                            raise Violation('wrong', '%s: got %s, its definition gives %s' % (what, brief(got), brief(m)))
                    ctx.checked += 1
                    ctx.sig(it[0], before[-3:], features(s.spec)[0][:2] if it[0] == 'unitary' else 0)
                before.append(('read', sorted({i[0] for i in items})))
                continue
            out = s.apply(o)
            if o['op'] == 'run':
                ctx.note_run(out)
                if not o.get('failing'):
                    s.check_ok(out, 'operation %d (run)' % n)
                elif out.exc is not None and not out.fired:
                    raise Violation('unexpected-error', 'operation %d (run) raised %s' % (n, short(out.exc)))
                before.append(('failed run' if out.exc is not None else 'run',))
            else:
                before.append((o['op'], o['path'][-1] if 'path' in o else o.get('how')))


def valid(spec, it):
    what, i, j = it
    if what == 'times':
        return True
    if what == 'termham':
        return i < len(spec['systems']) and j[0] < len(spec['systems'][i]['leaves']) and \
            j[1] < len(spec['systems'][i]['leaves'][j[0]]['terms'])
    if what in ('coupham', 'jop'):
        return i < len(spec['systems']) and j < len(spec['systems'][i].get('couplings' if what == 'coupham' else 'diss', []))
    if what in ('dims', 'sysunit'):
        return i < len(spec['systems'])
    if what in ('ham', 'init', 'leafham', 'leafinit'):
        return i < len(spec['systems']) and (j is None or j < len(spec['systems'][i]['leaves']))
    return i < len(spec['protocols']) and (j is None or j < len(spec['protocols'][i].get('steps') or []))


def describe_item(it):
    what, i, j = it
    name = {'ham': 'Hamiltonian of system %d', 'init': 'initial state of system %d', 'unitary': 'evolution of protocol %d',
            'hc': 'conjugate of protocol %d', 'proinit': 'initial state of protocol %d', 'dims': 'dimensions of system %d',
            'sysunit': 'free evolution of system %d', 'times': 'time points of simulation %d'}.get(what)
    if name:
        return name % i
    if what == 'termham':
        return 'Hamiltonian of term %d of part %d of system %d' % (j[1], j[0], i)
    return {'coupham': 'Hamiltonian of coupling %d of system %d', 'jop': 'operator of dissipator %d of system %d',
            'leafham': 'Hamiltonian of part %d of system %d', 'leafinit': 'initial state of part %d of system %d',
            'step': 'evolution of step %d of protocol %d'}[what] % (j, i)


def read(r, spec):
    items = items_of(spec)
    return {'op': 'reads', 'items': r.sample(items, r.randint(1, min(4, len(items)))), 'order': 0}


def same_edit(r, spec):
    """Set a parameter to the value it already has."""
    cand = [p for p in edit_paths(spec) if p[-1] in ('freq', 'rate', 'temp', 'bfreq', 'angle', 'axis', 'dt', 'op', 'order', 'ratio')]
    swept = edits.used_paths(spec)
    cand = [p for p in cand if str(p) not in swept and model.get(spec, p[:-1]).get(p[-1]) is not None]
    if not cand:
        return []
    p = r.choice(cand)
    return [{'op': 'set', 'path': p, 'val': model.get(spec, p)}]


def edit(r, spec):
    x = r.random()
    if x < 0.2:
        d = dim_edit(r, spec)
        if d:
            return d
    if x < 0.3:
        out = []
        for s, sysm in enumerate(spec['systems']):
            if sysm.get('initby') == 'leaves':
                i = r.randrange(len(sysm['leaves']))
                out.append({'op': 'set', 'path': ['systems', s, 'init', i],
                            'val': G.leaf_init(r, sysm['leaves'][i]['dim'], False)})
        if out:
            return [r.choice(out)]
    if x < 0.45:
        out = [{'op': 'set', 'path': ['protocols', p, 'steps', k, 'updates', j, 'value'], 'val': G.freq(r)}
               for p, pro in enumerate(spec['protocols']) for k, st in enumerate(pro.get('steps') or [])
               for j, u in enumerate(st.get('updates', []))]
        if out:
            return [r.choice(out)]
    for _ in range(4):
        e = any_edit(r, spec)
        if e and e[0]['path'][0] == 'systems' and e[0]['path'][2] == 'init' and \
                spec['systems'][e[0]['path'][1]].get('initby') == 'leaves':
            continue
        return e
    return []


def dim_edit(r, spec):
    swept = edits.used_paths(spec)
    out = []
    for s, sysm in enumerate(spec['systems']):
        n = 1
        for d in model.dims(sysm):
            n *= d
        if any(str(['systems', s, 'init'])[:-1] in u for u in swept):
            continue
        for i, lf in enumerate(sysm['leaves']):
            if lf['cls'] == 'Qubit' or not G.pauli_free(spec, s, i) or not G.dim_sweepable(spec, s) or \
                    any(d['leaf'] == i for d in sysm.get('diss', [])):
                continue
            if any(str(['systems', s, 'leaves', i, k]) in swept for k in ('dim', 'jValue')):
                continue
            lo = max(2, G.max_input(spec, s, i) + 1)
            hi = min(lo + 2, max(lo, 16 * lf['dim'] // n))
            v = r.randint(lo, hi)
            path = ['systems', s, 'leaves', i, 'dim']
            if lf['cls'] == 'Spin' and r.random() < 0.5:
                path, v = path[:-1] + ['jValue'], (v - 1) / 2
            out.append({'op': 'set', 'path': path, 'val': v})
    return [r.choice(out)] if out else []


def taken_apart(r, spec, ids):
    """A part of a composite is removed (and possibly put back) after the composite was looked at."""
    if r.random() < 0.65:
        return []
    out = edits.structural(r, spec, ids, r.choice([('rmsub', 'rmleaf'), ('rmleaf', 'rmsub'), ('rmterm', 'rmcoup'),
                                                   ('rmcoup', 'rmterm')]))
    if not out or r.random() < 0.3:
        return out
    mid = []
    if len(out) > 1 and r.random() < 0.7:
        mid = look(r, apply_ops_to_spec(spec, out[:1]))
    return look(r, spec) + out[:1] + mid + out[1:]


def after_look(r, spec, ids):
    """A part of a protocol, a dissipator or a bath changes after the evolutions that use it were created."""
    out = []
    if any(sysm.get('diss') for sysm in spec['systems']) and r.random() < 0.8:
        if r.random() < 0.4:
            out = edits.structural(r, spec, ids, r.choice([('joinbath', 'adddiss'), ('adddiss', 'joinbath')]))
        swept = edits.used_paths(spec)
        key = r.choice([('rate',), ('temp',), ('bfreq',), ('rate', 'temp', 'bfreq')])
        cand = [p for p in edit_paths(spec) if p[-1] in key and str(p) not in swept]
        if not out and cand:
            out = [{'op': 'set', 'path': r.choice(cand), 'val': round(r.uniform(0.1, 0.9), 3)}]
    if not out:
        kinds = ['addup', 'gatesys', 'gaterm', 'addstep', 'rmstep']
        r.shuffle(kinds)
        out = edits.structural(r, spec, ids, kinds)
    if not out:
        return []
    items = [x for x in items_of(spec) if x[0] in ('unitary', 'jop', 'sysunit')]
    look_all = {'op': 'reads', 'items': items, 'order': 0}
    return ([look_all] if items else []) + out + ([look_all] if items and r.random() < 0.5 else [])


def look(r, spec):
    items = [x for x in items_of(spec) if x[0] in ('ham', 'init', 'leafham', 'leafinit', 'unitary')]
    return [{'op': 'reads', 'items': r.sample(items, min(len(items), 4)), 'order': 0}]


def exchange_edit(r, spec):
    """Two parts exchange their dimensions one after the other, so that the total dimension is what it was."""
    swept = edits.used_paths(spec)
    for s, sysm in enumerate(spec['systems']):
        if any(str(['systems', s, 'init'])[:-1] in u for u in swept) or not G.dim_sweepable(spec, s):
            continue
        ok = [i for i, lf in enumerate(sysm['leaves']) if lf['cls'] != 'Qubit' and G.pauli_free(spec, s, i) and
              not any(d['leaf'] == i for d in sysm.get('diss', [])) and
              not any(str(['systems', s, 'leaves', i, k]) in swept for k in ('dim', 'jValue'))]
        pairs = [(i, j) for i in ok for j in ok if i != j and sysm['leaves'][i]['dim'] != sysm['leaves'][j]['dim'] and
                 sysm['leaves'][j]['dim'] > G.max_input(spec, s, i) and
                 sysm['leaves'][i]['dim'] > G.max_input(spec, s, j)]
        if not pairs:
            continue
        i, j = r.choice(pairs)
        out = []
        for a, b in ((i, j), (j, i)):
            path, v = ['systems', s, 'leaves', a, 'dim'], sysm['leaves'][b]['dim']
            if sysm['leaves'][a]['cls'] == 'Spin' and r.random() < 0.5:
                path, v = path[:-1] + ['jValue'], (v - 1) / 2
            out.append({'op': 'set', 'path': path, 'val': v})
        reads = {'op': 'reads', 'items': [('init', s, None), ('ham', s, None)] + [('leafinit', s, k) for k in (i, j)] +
                [('proinit', p, None) for p, q in enumerate(spec['protocols']) if q['sys'] == s], 'order': 0}
        mid = [dict(reads)] if r.random() < 0.2 else []
        return ([dict(reads)] if r.random() < 0.8 else []) + [out[0]] + mid + [out[1]]
    return []
