"""Seeded generation of specs: small, diverse worlds (swarm style: every feature is switched on or off per run)."""
import copy
import math

import numpy as np

from . import model

FREQS = [0.3, -0.7, 1.1, 2.0, 0.05, 1.7, -1.3, 0.9, 3.2, 5, 1, 0.6]


def freq(r):
    return r.choice(FREQS) if r.random() < 0.6 else round(r.uniform(-3, 3), 4) or 0.5


def leaf(r, maxdim, td=False, pauli=True, cls=None):
    cls = cls or (r.choice(['Qubit', 'Qubit', 'Cavity', 'Spin']) if r.random() < 0.92 else 'QuantumSystem')
    dim = 2 if cls == 'Qubit' else r.randint(2, max(2, maxdim))
    lf = {'cls': cls, 'dim': dim, 'terms': [], 'style': r.choice([0, 1])}
    if r.random() < 0.07:
        lf['user'] = True
    if cls == 'Spin':
        lf['by'] = r.choice(['dim', 'jValue'])
    first = {'Qubit': 'Jz', 'Spin': 'Jz', 'Cavity': 'number', 'QuantumSystem': 'Jz'}[cls]
    if r.random() < 0.35:
        first = r.choice(['Jz', 'Jx', 'Jy', 'number'] + (['sigmaz', 'sigmax', 'sigmay'] if cls == 'Qubit' and pauli else []))
    lf['terms'].append({'op': first, 'freq': freq(r)})
    n = r.choice([0, 1, 1, 2])
    for _ in range(n):
        o = r.choice(['Jx', 'Jy', 'Jz', 'number', 'Jx'] + (['sigmax', 'sigmay'] if cls == 'Qubit' and pauli else []))
        t = {'op': o, 'freq': freq(r)}
        if r.random() < 0.25:
            t['order'] = 2
        lf['terms'].append(t)
    if td:
        for t in lf['terms']:
            if r.random() < 0.5:
                t['td'] = tdfn(r)
    return lf


def tdfn(r):
    return {'a': round(r.uniform(-1.5, 1.5), 3), 'b': r.choice([0.5, 1.0, -1.5]), 'w': r.choice([0.7, 1.3, 2.9]),
            'p': r.choice([0.0, 0.4])}


def copied(lf, i, r=None):
    lf = copy.deepcopy(lf)
    lf['copyof'] = i
    if r is not None and r.random() < 0.4:
        lf['ckw'] = True
        lf['terms'][0]['freq'] = freq(r)
    return lf


def leaf_init(r, dim, rich=True):
    k = r.randrange(dim)
    x = r.random()
    if rich and x < 0.25 and dim > 1:
        return sorted(r.sample(range(dim), 2))
    if rich and x < 0.5 and dim > 1:
        a, b = r.sample(range(dim), 2)
        w = r.choice([0.2, 0.5, 0.7])
        return {str(a): w, str(b): round(1 - w, 6)}
    return k


def lists_of(tree):
    return [y for x in tree if isinstance(x, list) for y in [x] + lists_of(x)]


def system(r, maxtotal=12, td=False, comp=None, maxleaves=3, pauli=True, nested=False):
    comp = nested or ((r.random() < 0.6) if comp is None else comp)
    if not comp:
        lf = leaf(r, min(maxtotal, 5), td, pauli)
        s = {'comp': False, 'leaves': [lf], 'couplings': [], 'init': leaf_init(r, lf['dim'])}
        if r.random() < 0.1:
            s['initarr'] = r.choice(['dense', 'sparse'])
        return s
    n = r.choice([2, 2, 3]) if maxleaves >= 3 else 2
    if nested:
        n = 3 if maxtotal < 16 or r.random() < 0.5 else 4
    leaves = []
    total = 1
    for i in range(n):
        room = maxtotal // total // (2 ** (n - 1 - i))
        lf = leaf(r, max(2, min(4, room)), td, pauli)
        if i and not td and leaves[0]['dim'] <= room and r.random() < 0.1:
            lf = copied(leaves[0], 0, r)
        total *= lf['dim']
        leaves.append(lf)
    s = {'comp': True, 'leaves': leaves, 'couplings': [], 'how': r.choice(['kw', 'add', 'plus'])}
    if n == 3 and r.random() < 0.35:
        s['tree'] = r.choice([[[0, 1], 2], [0, [1, 2]]])
        s['how'] = r.choice(['kw', 'add'])
    if nested:
        s['tree'] = r.choice([[[0, 1], 2], [0, [1, 2]]] if n == 3 else
                             [[[0, 1], 2, 3], [0, [1, 2], 3], [[0, 1], [2, 3]], [0, [1, 2, 3]], [[[0, 1], 2], 3], [0, [1, [2, 3]]]])
        s['how'] = r.choice(['kw', 'add'])
    if s['how'] != 'plus' and not s.get('tree') and not td and all(lf.get('copyof') == 0 and not lf.get('ckw') for lf in leaves[1:]):
        s['how'] = r.choice(['kw', 'add', 'mul'])
    elif n == 2 and not td and leaves[0]['dim'] ** 2 <= maxtotal and r.random() < 0.07:
        leaves[1] = copied(leaves[0], 0)
        s['how'] = 'mul'
    for _ in range(r.choice([0, 1, 1, 2])):
        a, b = r.sample(range(n), 2)
        ca, cb = leaves[a], leaves[b]
        cav = [i for i in (a, b) if leaves[i]['cls'] == 'Cavity']
        qub = [i for i in (a, b) if leaves[i]['cls'] in ('Qubit', 'Spin')]
        if len(cav) == 1 and len(qub) == 1 and leaves[qub[0]]['terms'][0]['op'] in ('Jz', 'sigmaz') and r.random() < 0.6:
            kind = r.choice(['JC', 'Dicke'] + (['Rabi'] if leaves[qub[0]]['dim'] == 2 and pauli and
                                               leaves[qub[0]]['cls'] == 'Qubit' else []))
            s['couplings'].append({'kind': kind, 'leaves': [cav[0], qub[0]], 'freq': freq(r)})
        else:
            c = {'kind': 'term', 'leaves': [a, b],
                 'ops': [r.choice(['Jx', 'Jz', 'number', 'Jy']), r.choice(['Jx', 'Jz', 'number'])], 'freq': freq(r)}
            if td and r.random() < 0.4:
                c['td'] = tdfn(r)
            if r.random() < 0.15:
                c['orders'] = [r.choice([1, 2]), r.choice([1, 2])]
            if s.get('tree') and any(a in x and b in x for x in lists_of(s['tree'])) and r.random() < 0.6:
                c['at'] = 'parent'
            s['couplings'].append(c)
    s['init'] = [leaf_init(r, lf['dim']) for lf in leaves]
    if r.random() < 0.1:
        s['initarr'] = r.choice(['dense', 'sparse'])
    return s


def freq_paths(spec, s):
    sysm = spec['systems'][s]
    out = []
    for i, lf in enumerate(sysm['leaves']):
        for j in range(len(lf['terms'])):
            out.append(['systems', s, 'leaves', i, 'terms', j, 'freq'])
    for k in range(len(sysm['couplings'])):
        out.append(['systems', s, 'couplings', k, 'freq'])
    return out


def static_freq_paths(spec, s):
    return [p for p in freq_paths(spec, s)
            if not model.get(spec, p[:-1]).get('td') and not model.get(spec, p[:-1]).get('tds')]


def dissipators(r, sysm):
    """One to three dissipators on leaves; a leaf with dissipators keeps its dimension."""
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        i = r.randrange(len(sysm['leaves']))
        lf = sysm['leaves'][i]
        o = r.choice({'Cavity': ['destroy', 'create', 'number']}.get(lf['cls'], ['Jm', 'Jp', 'Jz']))
        if lf['cls'] == 'Qubit' and r.random() < 0.4:
            o = r.choice(['sigmam', 'sigmaz', 'sigmay'])
        if r.random() < 0.25:
            o = r.choice(['Jy', 'cmix', 'Jx'])
        d = {'leaf': i, 'op': o, 'rate': r.choice([0.1, 0.5, 1.0, 0.03, 1.7])}
        if r.random() < 0.4:
            d['temp'] = r.choice([0.5, 1.3, 0, 2])
        out.append(d)
    return out


def baths(r, sysm):
    """Sometimes dissipators share a thermal bath."""
    if r.random() < 0.3:
        ks = sorted(r.sample(range(len(sysm['diss'])), r.randint(1, len(sysm['diss']))))
        for k in ks:
            sysm['diss'][k].pop('temp', None)
        sysm['baths'] = [{'temp': r.choice([0.5, 1.3, 0, 2]), 'bfreq': r.choice([1, 0.5, 2]), 'diss': ks}]


def steps(r, spec, s, ids, depth=0, updates=True, fixed=True, hc=True, samples=False, gates=True, opened=False):
    sysm = spec['systems'][s]
    out = []
    n = r.randint(1, 4)
    for _ in range(n):
        x = r.random()
        own = [i for i, st in enumerate(out) if st['kind'] not in ('copy', 'hc', 'ref')]
        if own and x < 0.18:
            out.append({'kind': 'copy', 'of': r.choice(own)})
            continue
        if own and hc and x < 0.36:
            if opened:
                own = [i for i in own if out[i]['kind'] in ('rot', 'xgate')]
            if own:
                out.append({'kind': 'hc', 'of': r.choice(own)})
                continue
        ids[0] += 1
        if gates and x < 0.6:
            kind = r.choice(['rot', 'xgate'])
            nl = len(sysm['leaves'])
            idx = sorted(r.sample(range(nl), r.randint(1, nl)))
            st = {'kind': kind, 'leaves': idx, 'angle': r.choice([math.pi, math.pi / 2, 0.4, -1.1]), 'id': ids[0],
                  'axis': 'x'}
            if kind == 'rot':
                st['axis'] = r.choice('xyz')
                if r.random() < 0.25:
                    st['phase'] = r.choice([-1, 0.5])
            else:
                if r.random() < 0.4:
                    st['axis'] = r.choice('yz')
                if all(sysm['leaves'][i]['dim'] == 2 for i in idx) and r.random() < 0.5 and not any(
                        p[-1] in ('dim', 'jValue') for sw in spec.get('sweeps', []) for p in sw['paths']):
                    st['impl'] = r.choice(['instant', 'flip'])
            if fixed and r.random() < 0.15:
                st['fixed'] = True
            out.append(st)
            continue
        if depth == 0 and x > (0.85 if fixed else 0.93):
            st = {'kind': 'nested', 'id': ids[0], 'sys': s}
            st['steps'] = steps(r, spec, s, ids, 1, updates, fixed, hc, False, gates, opened)
            inner = any(x.get('fixed') for x in st['steps'])     # created with or without the update, as it is first needed
            if updates and not inner and r.random() < 0.3:
                st['updates'] = own_updates(r, spec, s)
            if fixed and not inner and r.random() < 0.15:
                st['fixed'] = True
            out.append(st)
            continue
        st = {'kind': 'free', 'id': ids[0]}
        if r.random() < 0.4:
            st['ratio'] = r.choice([0.5, 2, -0.5, 0.25, 1.5] if not opened else [0.5, 2, 0.25, 1.5])
        if opened and r.random() < 0.25:
            st['diss'] = [r.randrange(len(sysm['diss']))]
        if fixed and r.random() < 0.2:
            st['fixed'] = True
        if updates and r.random() < 0.5:
            ups = static_freq_paths(spec, s)
            if ups:
                chosen = r.sample(ups, min(len(ups), r.choice([1, 1, 2])))
                st['updates'] = [{'path': p, 'value': r.choice([0, 0.0, 1.25, -0.8, freq(r)]), 'single': r.random() < 0.5}
                                 for p in chosen]
                for up in st['updates']:
                    rest = [p for p in ups if p not in chosen]
                    if rest and r.random() < 0.25:
                        up['also'] = [r.choice(rest)]
                        chosen = chosen + up['also']
                    if r.random() < 0.15:
                        up['fn'] = r.choice([2, -1])
            others = [x for x in out if x.get('updates') and not x.get('fixed')]
            if others and r.random() < 0.25:       # one update object in two steps
                up = r.choice(r.choice(others)['updates'])
                up.setdefault('shared', ids[0])
                st['updates'] = [copy.deepcopy(up)]
        if samples and r.random() < 0.4:
            st['samples'] = r.choice([2, 3])
        out.append(st)
    return out


def protocol(r, spec, s, ids, **kw):
    opened = bool(spec['systems'][s].get('diss')) and r.random() < 0.8
    diss = []
    if opened:
        ks = range(len(spec['systems'][s]['diss']))
        diss = sorted(r.sample(ks, r.randint(1, len(ks))))
    if r.random() < 0.35 or kw.get('free'):
        p = {'sys': s, 'kind': 'free', 'id': 0}
        if r.random() < 0.3:
            p['ratio'] = r.choice([0.5, 2])
        if diss:
            p['diss'] = diss
        if kw.get('updates') and r.random() < 0.2:
            p['updates'] = own_updates(r, spec, s)
        return p
    kw.pop('free', None)
    kw['opened'] = opened
    if opened:
        kw['samples'] = False
    p = {'sys': s, 'kind': 'qpro', 'how': r.choice(['addStep', 'steps', 'addSubSys']), 'steps': None}
    ids[0] += 1
    p['id'] = ids[0]
    if diss:
        p['diss'] = diss
    p['steps'] = steps(r, spec, s, ids, **kw)
    if kw.get('updates') and not any(st.get('fixed') or st.get('samples') for st in flat_steps(p)) and r.random() < 0.12:
        p['updates'] = own_updates(r, spec, s)
    return p


def own_updates(r, spec, s):
    """Updates of a whole protocol (or of a step that is a protocol)."""
    ups = static_freq_paths(spec, s)
    return [{'path': p, 'value': r.choice([0, 1.25, freq(r)]), 'single': r.random() < 0.5} for p in r.sample(ups, min(1, len(ups)))]


def times(r, sim, maxsteps=6):
    dt = r.choice([0.1, 0.25, 0.5, 0.2, 1.0, 0.05, 0.3])
    n = r.randint(1, maxsteps)
    how = r.choice(['Tdt', 'dtT', 'Tdt', 'dtT', 'countdt', 'dtcount', 'Tcount', 'countT'])
    t = round(dt * (n - 1) + r.choice([0.0, 0.0, dt * 0.4]), 9) or dt * 0.5
    if how == 'Tdt':
        sim.update(T=t, dt=dt, order=['T', 'dt'])
    elif how == 'dtT':
        sim.update(T=t, dt=dt, order=['dt', 'T'])
    elif how in ('countdt', 'dtcount'):
        sim.update(count=n, set_count=n, dt=dt, order=['count', 'dt'] if how == 'countdt' else ['dt', 'count'])
    else:
        sim.update(T=t, set_count=n, dt=t / n, order=['T', 'count'] if how == 'Tcount' else ['count', 'T'])
    return sim


def sweeps(r, spec, maxpoints=12, keys=('freq', 'dt', 'angle', 'dim', 'init', 'ratio', 'T', 'phase', 'rate', 'temp', 'aux'), maxn=3):
    """A list of sweeps: combinatorial and simultaneous ones, over every kind of parameter."""
    out = []
    used = set()
    total = 1
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        n = r.randint(1, maxn)
        if total * n > maxpoints:
            n = max(1, maxpoints // total)
        members = 1 if r.random() < 0.7 else 2
        made = 0
        for m in range(members):
            sw = one_sweep(r, spec, n, keys, used)
            if sw is None:
                continue
            sw['comb'] = made == 0 and len(out) > 0
            out.append(sw)
            made += 1
        if made:
            total *= n
    return out


def one_sweep(r, spec, n, keys, used):
    kinds = list(keys) + (['value'] if 'ratio' in keys else [])
    r.shuffle(kinds)
    for kind in kinds:
        if kind == 'freq':
            ps = [p for s in range(len(spec['systems'])) for p in static_freq_paths(spec, s) if str(p) not in used]
            if not ps:
                continue
            paths = [r.choice(ps)]
            if r.random() < 0.2 and len(ps) > 1:       # one sweep driving several objects
                other = [p for p in ps if p != paths[0]]
                paths.append(r.choice(other))
            vals = [freq(r) for _ in range(n)]
            if r.random() < 0.2:
                vals[0] = 0
        elif kind in ('rate', 'temp'):
            ps = [['systems', s, 'diss', k, kind] for s, sysm in enumerate(spec['systems'])
                  for k, d in enumerate(sysm.get('diss', [])) if kind in d] + \
                [['systems', s, 'baths', k, key] for s, sysm in enumerate(spec['systems'])
                 for k in range(len(sysm.get('baths', []))) for key in ('temp', 'bfreq') if kind == 'temp']
            ps = [p for p in ps if str(p) not in used]
            if not ps:
                continue
            paths, vals = [r.choice(ps)], [r.choice([0.2, 0.7, 1.5, 0.05, 0]) for _ in range(n)]
            if paths[0][-1] == 'bfreq':
                vals = [v or 1 for v in vals]
        elif kind == 'dt':
            if spec['sim'].get('T') is None or 'dt' in used or 'T' in used:
                continue
            dt = spec['sim']['dt']
            paths, vals = [['sim', 'dt']], [round(dt * r.choice([1, 1.5, 2, 0.8]), 6) for _ in range(n)]
            used.add('dt')
        elif kind == 'T':
            if spec['sim'].get('T') is None or 'dt' in used or 'T' in used or 'set_count' in spec['sim']:
                continue
            t = spec['sim']['T']
            paths, vals = [['sim', 'T']], [round(t + spec['sim']['dt'] * r.choice([0, 1, 2]), 6) for _ in range(n)]
            used.add('T')
        elif kind == 'value':
            ps = [['protocols', p, 'steps', k, 'updates', j, 'value'] for p, pro in enumerate(spec['protocols'])
                  for k, st in enumerate(pro.get('steps') or []) if not st.get('fixed')
                  for j, u in enumerate(st.get('updates', [])) if not u.get('shared')]
            ps = [p for p in ps if str(p) not in used]
            if not ps:
                continue
            paths = [r.choice(ps)]
            vals = [freq(r) for _ in range(n)]
        elif kind in ('angle', 'ratio', 'phase'):
            ps = [['protocols', p, 'steps', k, kind] for p, pro in enumerate(spec['protocols'])
                  for k, st in enumerate(pro.get('steps') or [])
                  if (kind in ('angle', 'phase') and st['kind'] == 'rot' and not st.get('fixed')) or
                  (kind == 'angle' and st['kind'] == 'xgate' and not st.get('fixed')) or
                  (kind == 'ratio' and st['kind'] == 'free' and not st.get('fixed'))]
            ps = [p for p in ps if str(p) not in used]
            if not ps:
                continue
            paths = [r.choice(ps)]
            vals = [r.choice([0.3, 1.2, math.pi, -0.6, 0.75, 2]) for _ in range(n)]
            if kind == 'ratio':
                vals = [abs(v) for v in vals]      # a negative duration with dissipation is not physical
        elif kind == 'aux':
            if r.random() < 0.7 or not spec.get('aux'):
                continue
            ks = [k for k in spec['aux'] if str(['aux', k]) not in used]
            if not ks:
                continue
            paths, vals = [['aux', r.choice(ks)]], [round(r.uniform(-2, 2), 3) for _ in range(n)]
        elif kind == 'dim':
            if 'init' in used:
                continue
            ps = []
            for s, sysm in enumerate(spec['systems']):
                for i, lf in enumerate(sysm['leaves']):
                    if lf['cls'] != 'Qubit' and pauli_free(spec, s, i) and dim_sweepable(spec, s) and \
                            not any(d['leaf'] == i for d in sysm.get('diss', [])):
                        ps.append(['systems', s, 'leaves', i, 'dim'])
            ps = [p for p in ps if str(p) not in used and str(p[1]) + 'dim' not in used]
            if not ps:
                continue
            paths = [r.choice(ps)]
            s, i = paths[0][1], paths[0][3]
            lo = max(2, max_input(spec, s, i) + 1)
            vals = [r.randint(lo, lo + 2) for _ in range(n)]
            if spec['systems'][s]['leaves'][i]['cls'] == 'Spin' and r.random() < 0.5:
                paths = [paths[0][:-1] + ['jValue']]
                vals = [(v - 1) / 2 for v in vals]
            used.add(str(s) + 'dim')
        elif kind == 'init':
            ss = [s for s in range(len(spec['systems'])) if ('init%d' % s) not in used and (str(s) + 'dim') not in used]
            if not ss:
                continue
            s = r.choice(ss)
            sysm = spec['systems'][s]
            paths = [['systems', s, 'init']]
            vals = [[leaf_init(r, lf['dim'], False) for lf in sysm['leaves']] if sysm['comp']
                    else leaf_init(r, sysm['leaves'][0]['dim'], False) for _ in range(n)]
            used.add('init%d' % s)
            used.add(str(s) + 'dim')
        else:
            continue
        for p in paths:
            used.add(str(p))
        sw = restyle(r, {'paths': paths, 'values': vals, 'style': r.choice(['kw', 'late'])}, kind)
        p = paths[0]
        if kind == 'freq' and len(paths) == 1 and p[2] == 'leaves' and p[5] == 0 and 'range' not in sw and \
                spec['systems'][p[1]]['leaves'][p[3]].get('user') and r.random() < 0.6:
            sw['gap'] = True
        return sw
    return None


def range_values(rg):
    """The values min, min + step, ... up to max of a range; the powers of ten of a logarithmic one."""
    if rg.get('log'):
        lo, hi, n = rg['min'], rg['max'], rg['step']
        return [10.0 ** (lo + (hi - lo) * (i / (n - 1) if n > 1 else 0)) for i in range(n)]
    out = []
    k = 0
    while (rg['max'] - rg['min']) / rg['step'] + 1e-6 >= k:
        out.append(rg['min'] + k * rg['step'])
        k += 1
    return out


def restyle(r, sw, kind):
    """Sometimes the same sweep as a range, a logarithmic range or a function of the user."""
    n = len(sw['values'])
    if r.random() < 0.3:
        sw['implicit'] = True           # no system is named where the simulation's own system is meant
    x = r.random()
    if kind == 'dim' and sw['paths'][0][-1] == 'dim' and x < 0.3:
        lo = min(sw['values'])
        sw['range'] = {'min': lo, 'max': lo + n - 1, 'step': 1}
    elif kind in ('freq', 'angle', 'phase', 'rate', 'aux') and x < 0.3:
        step = r.choice([0.1, 0.25, 0.3, 0.7, 1, -0.1, -0.4]) if kind != 'rate' else r.choice([0.1, 0.3])
        lo = r.choice([0, 0.1, 0.2, 0.5, 1, -0.3]) if kind != 'rate' else r.choice([0, 0.1])
        over = r.choice([0, 0, 0.4, 0.9]) * step       # the end need not be a multiple of the step
        hi = round(lo + (n - 1) * step + over, 6)
        sw['range'] = {'min': lo, 'max': hi, 'step': step}
        if len(range_values(sw['range'])) != n:
            del sw['range']
    elif kind in ('freq', 'angle', 'rate') and x < 0.4:
        sw['range'] = {'min': -1, 'max': r.choice([0, 0.3]), 'step': n, 'log': True}
    if 'range' in sw:
        sw['values'] = range_values(sw['range'])
        return sw
    if x > 0.9:
        sw['style'] = 'fn'
    elif x > 0.8 and kind in ('freq', 'dim', 'angle', 'phase', 'ratio', 'dt', 'T'):
        sw['np'] = True                 # the values as an array
    return sw


def pauli_free(spec, s, i):
    sysm = spec['systems'][s]
    if any(t['op'] in model.PAULI for t in sysm['leaves'][i]['terms']):
        return False
    for c in sysm['couplings']:
        if i in c['leaves'] and (c['kind'] == 'Rabi' or any(o in model.PAULI for o in c.get('ops', []))):
            return False
    for pro in spec['protocols']:
        if pro['sys'] == s and any(st.get('impl') and i in st['leaves'] for st in flat_steps(pro)):
            return False
    return True


def flat_steps(pro):
    for st in pro.get('steps') or []:
        yield st
        if st['kind'] == 'nested':
            yield from flat_steps(st)


def dim_sweepable(spec, s):
    return all(p.get('init') is None for p in spec['protocols'] if p['sys'] == s) and \
        not spec['systems'][s].get('initarr') and not any(st.get('fixed') for p in spec['protocols'] for st in flat_steps(p))


def max_input(spec, s, i):
    sysm = spec['systems'][s]
    init = sysm['init'][i] if sysm['comp'] else sysm['init']
    if isinstance(init, dict):
        return max(int(k) for k in init)
    if isinstance(init, list):
        return max(init)
    return init


def callbacks(r, spec, full=False, cond=False):
    cbs = []
    owners = ['sim'] + ['pro%d' % p for p in range(len(spec['protocols']))] + \
        ['sys%d' % s for s in range(len(spec['systems']))]
    w = 0.3
    hams = not model.has_td(spec)
    for o in owners:
        for when in ('pre', 'compute', 'post'):
            if not full and not (o == 'sim' and when != 'post') and r.random() < 0.45:
                continue
            recs = []
            w += 0.37
            if spec.get('aux') and r.random() < 0.4:
                k = r.choice(sorted(spec['aux']))
                recs.append(['aux', 'aux_%s_%s' % (when, o), round(w, 3), k, spec['auxin'][k]])
            if when == 'compute':
                for kind in ('single', 'method', 'avg', 'calc', 'array'):
                    if r.random() < (0.6 if kind == 'single' else 0.2):
                        recs.append([kind, '%s_%s' % (kind, o), round(w, 3)])
                if r.random() < 0.15:
                    recs.append(['pair', 'pair_%s' % o, round(w, 3), r.choice(['avg', 'single'])])
                if r.random() < 0.12:
                    recs.append(['state', 'state_%s' % o, round(w, 3)])
                if o.startswith('pro') and any(st.get('samples') for st in spec['protocols'][int(o[3:])].get('steps') or []) \
                        and r.random() < 0.5:
                    recs.append(['samples', 'samples_%s' % o, round(w, 3)])
            elif when == 'post' and r.random() < 0.6:
                recs.append([r.choice(['calc', 'single']), 'fin_%s' % o, round(w, 3)])
            elif when == 'pre' and r.random() < 0.3:
                recs.append([r.choice(['calc', 'single']), 'ini_%s' % o, round(w, 3)])
            if hams and r.random() < (0.3 if spec.get('tdsweeps') else 0.12):
                recs.append(['ham', 'ham_%s_%s' % (when, o), round(w, 3)])
            if hams and cond and when != 'pre' and r.random() < 0.12:
                recs.append(['cond', 'cond_%s_%s' % (when, o), round(w, 3), r.choice([0.0137, 0.613, -0.719])])
            cbs.append({'owner': o, 'when': when, 'recs': recs})
    return cbs


def spec(r, td=None, nsys=None, npro=None, sweep=True, maxtotal=9, maxpoints=10, maxsteps=4, tds=None, keys=None,
         updates=True, fixed=None, opened=False, hc=True, samples=None, gates=True, fullcbs=False, cbs=True, maxn=3, aux=True,
         nested=False, evol=False, cond=False):
    td = (r.random() < 0.3) if td is None else td
    nsys = r.choice([1, 1, 1, 2]) if nsys is None else nsys
    sp = {'systems': [], 'protocols': [], 'sim': {}}
    for _ in range(nsys):
        sp['systems'].append(system(r, maxtotal=maxtotal if nsys == 1 else 4, td=td, maxleaves=3 if nsys == 1 else 2,
                                    nested=nested and nsys == 1))
        if len(sp['systems']) == 2 and not td and r.random() < 0.15 and \
                all(c['kind'] == 'term' for c in sp['systems'][0]['couplings']):
            sp['systems'][1] = copied(sp['systems'][0], 0)
    fixed = (r.random() < 0.25) if fixed is None else fixed
    if opened:
        for sysm in sp['systems']:
            sysm['diss'] = dissipators(r, sysm)
            baths(r, sysm)
    mode = r.choice(['explicit', 'explicit', 'sys']) if nsys == 1 else 'explicit'
    sp['sim']['mode'] = mode
    times(r, sp['sim'], maxsteps)
    if mode == 'explicit' and r.random() < 0.4:
        sp['sim']['build'] = r.choice(['init', 'list', 'sub'])
    if mode == 'sys':
        sp['sim']['via'] = r.choice(['sim', 'sys'])
    elif r.random() < 0.3:
        sp['sim']['times'] = 'early'
    ids = [0]
    samples = (r.random() < 0.1) if samples is None else samples
    for s in range(nsys):
        n = r.choice([1, 1, 2]) if npro is None else npro
        if r.random() < 0.35:
            sp['protocols'].append({'sys': s, 'kind': 'free', 'default': True, 'id': 0})
            n -= 1
            if sp['systems'][s].get('diss'):
                if not sp['systems'][s]['comp']:      # a dissipator joins the free evolution of its own system
                    sp['protocols'][-1]['diss'] = list(range(len(sp['systems'][s]['diss'])))
                elif r.random() < 0.8:
                    sp['protocols'][-1]['diss'] = [0]
        for _ in range(n):
            p = protocol(r, sp, s, ids, updates=updates, hc=hc, samples=samples, gates=gates, fixed=fixed)
            if p['sys'] == s and r.random() < 0.2:
                sysm = sp['systems'][s]
                p['init'] = [leaf_init(r, lf['dim'], False) for lf in sysm['leaves']] if sysm['comp'] else \
                    leaf_init(r, sysm['leaves'][0]['dim'], False)
            if r.random() < 0.5:
                p['add'] = r.choice(['addProtocol', 'list', 'list', 'addQSystems', 'byname'])
            sp['protocols'].append(p)
    if nsys > 1 and r.random() < 0.7:
        sp['protocols'] = interleave(r, sp['protocols'])
    if not any(model.is_open(p) for p in sp['protocols']) and r.random() < 0.25:
        add_refs(r, sp)
    if tds if tds is not None else (r.random() < 0.15):
        add_tds(r, sp)
    if cbs and aux and r.random() < 0.35:
        sp['aux'] = {'aux_%s' % c: round(r.uniform(-1, 1), 3) for c in r.choice(['a', 'b', 'ab'])}
        sp['auxin'] = {k: r.choice(['obj', 'dict']) for k in sorted(sp['aux'])}
    if sweep:
        kw = {} if keys is None else {'keys': keys}
        sp['sweeps'] = sweeps(r, sp, maxpoints=maxpoints, maxn=maxn, **kw)
    if cbs:
        sp['cbs'] = callbacks(r, sp, fullcbs, cond)
    x = r.random()
    if evol and cbs and x < 0.06:
        spectrum(r, sp)
    elif x > 0.92:
        sp['sim']['evol'] = 'user'
    return sp


def spectrum(r, sp):
    """A sweep without time evolution, for properties of the Hamiltonian."""
    sp['sim']['evol'] = 'none'
    for c in sp['cbs']:
        for rec in c['recs']:
            if rec[0] not in ('aux', 'cond'):
                rec[0] = 'ham'
        c['recs'] = c['recs'] or [['ham', 'ham_%s_%s' % (c['when'], c['owner']), 0.7]]


def add_refs(r, sp):
    """A step of one protocol is a step of another protocol as well."""
    ps = [(p, q) for q in range(len(sp['protocols'])) for p in range(q) if sp['protocols'][p]['sys'] == sp['protocols'][q]['sys']
          and all(sp['protocols'][x]['kind'] == 'qpro' and not any(st.get('samples') for st in sp['protocols'][x]['steps'])
                  for x in (p, q))]
    if not ps:
        return
    p, q = r.choice(ps)
    ks = [k for k, st in enumerate(sp['protocols'][p]['steps']) if st['kind'] not in ('copy', 'hc') and not st.get('fixed') and
          not any(x.get('fixed') for x in st.get('steps', []))]
    if ks:
        sp['protocols'][q]['steps'].append({'kind': 'ref', 'p': p, 'of': r.choice(ks)})


def interleave(r, pros):
    """Protocols of different systems in any order; those of one system keep theirs (the default one comes first)."""
    queues = {}
    for p in pros:
        queues.setdefault(p['sys'], []).append(p)
    out = []
    while queues:
        s = r.choice(sorted(queues))
        out.append(queues[s].pop(0))
        if not queues[s]:
            del queues[s]
    return out


def add_tds(r, sp):
    ps = [p for s in range(len(sp['systems'])) for p in static_freq_paths(sp, s)]
    ups = {str(q) for p in sp['protocols'] for st in [p] + list(flat_steps(p)) for u in st.get('updates', [])
           for q in [u['path']] + u.get('also', [])}
    ps = [p for p in ps if str(p) not in ups]
    if not ps:
        return
    kind = r.choice(['list', 'fn'])
    n = r.choice([1, 1, 2])
    chosen = r.sample(ps, min(n, len(ps)))
    _, cnt = model.steps_of(sp['sim'])
    if sp['sim'].get('T') is None:      # the number of values defines the number of steps: keep them the same
        cnt = sp['sim']['count']
    out = []
    for p in chosen:
        t = {'kind': kind, 'paths': [p]}
        if kind == 'list':
            t['values'] = [freq(r) for _ in range(cnt)]
            if r.random() < 0.3:
                rg = {'min': r.choice([0.3, -1, 2]), 'step': r.choice([0.25, -0.5, 1])}
                rg['max'] = round(rg['min'] + (cnt - 1) * rg['step'], 6)
                t.update(range=rg, values=range_values(rg))
        else:
            t['fn'] = tdfn(r)
        if p[2] == 'leaves' and p[4] == 'terms' and p[5] == 0 and r.random() < 0.5:
            t['top'] = True         # the system itself is swept, not its term
        out.append(t)
        model.get(sp, p[:-1])['tds'] = True
    sp['tdsweeps'] = out
