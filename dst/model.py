"""Reference model: what a simulation means, in a few lines of dense numpy, sharing no code with the library.

A *spec* is plain JSON.  Paths into it name every parameter; the same path names an attribute of a real object
(see world.py), so one operation is applied to both sides.
"""
import copy
import itertools
import math

import numpy as np

I = 1j


def expm_h(h, t):
    """exp(-i h t) for a Hermitian matrix."""
    w, v = np.linalg.eigh(h)
    return (v * np.exp(-1j * w * t)) @ v.conj().T


def expm_any(m):
    """Scaling and squaring with a long Taylor series; small matrices only."""
    n = max(0, int(math.ceil(math.log2(max(np.abs(m).sum(axis=0).max(), 1e-300)))) + 4)
    a = m / (2 ** n)
    out = np.eye(len(m), dtype=complex)
    term = np.eye(len(m), dtype=complex)
    for k in range(1, 22):
        term = term @ a / k
        out = out + term
    for _ in range(n):
        out = out @ out
    return out


def op(name, dim):
    j = 0.5 * (dim - 1)
    m = j - np.arange(dim)
    if name == 'number':
        return np.diag(np.arange(dim)).astype(complex)
    if name == 'destroy':
        return np.diag(np.sqrt(np.arange(1, dim)), 1).astype(complex)
    if name == 'create':
        return op('destroy', dim).conj().T
    if name == 'Jz':
        return np.diag(m).astype(complex)
    if name == 'Jp':
        return np.diag(np.sqrt(j * (j + 1) - m[1:] * (m[1:] + 1)), 1).astype(complex)
    if name == 'Jm':
        return op('Jp', dim).conj().T
    if name == 'Jx':
        return (op('Jp', dim) + op('Jm', dim)) / 2
    if name == 'Jy':
        return (op('Jp', dim) - op('Jm', dim)) / 2j
    if name == 'sigmax':
        return np.array([[0, 1], [1, 0]], dtype=complex)
    if name == 'sigmay':
        return np.array([[0, -1j], [1j, 0]])
    if name == 'sigmaz':
        return np.array([[1, 0], [0, -1]], dtype=complex)
    if name == 'sigmap':
        return np.array([[0, 1], [0, 0]], dtype=complex)
    if name == 'sigmam':
        return np.array([[0, 0], [1, 0]], dtype=complex)
    if name == 'cmix':
        return op('destroy', dim) + 0.5j * op('Jz', dim)
    raise KeyError(name)


PAULI = ('sigmax', 'sigmay', 'sigmaz', 'sigmap', 'sigmam')


def get(spec, path):
    cur = spec
    for p in path:
        cur = cur[p]
    return cur


def put(spec, path, val):
    """Set a parameter (with the same side effects the user-facing setters document)."""
    cur = spec
    for p in path[:-1]:
        cur = cur[p]
    key = path[-1]
    if key == 'jValue':
        cur['dim'] = int(2 * val + 1)
        return
    cur[key] = val
    if key == 'value' and cur.get('shared'):      # one update object in several steps
        for st in spec['protocols'][path[1]]['steps']:
            for up in st.get('updates', []):
                if up.get('shared') == cur['shared']:
                    up['value'] = val
    if path[0] == 'sim' and key in ('dt', 'T', 'count'):
        settime(cur, key, val)
        cur.pop('set_count', None)
        cur['order'] = ['T', 'dt'] if cur.get('T') is not None else ['count', 'dt']


def put_update(spec, up):
    """What an update of a step sets: its value, or what the function of the user makes of it."""
    for path in [up['path']] + up.get('also', []):
        put(spec, path, up['value'] * up['fn'] if up.get('fn') else up['value'])


def settime(sim, key, val):
    """Any two of T, dt, count determine the third; the step count is the number of steps that cover T."""
    if key == 'count':
        if sim.get('T') is not None:
            sim['dt'] = sim['T'] / val
            del_count(sim)
        else:
            sim['count'] = val
    elif sim.get('T') is not None and sim.get('dt') is not None:
        del_count(sim)


def del_count(sim):
    sim.pop('count', None)


def steps_of(sim):
    t, dt, cnt = sim.get('T'), sim.get('dt'), sim.get('count')
    if t is None:
        t = cnt * dt
    if dt is None:
        dt = t / cnt
    return dt, int(t // dt + 1)


def dims(sysm):
    return [leaf['dim'] for leaf in sysm['leaves']]


def embed(sysm, i, mat):
    ds = dims(sysm)
    before = int(np.prod(ds[:i])) if i else 1
    after = int(np.prod(ds[i + 1:])) if i + 1 < len(ds) else 1
    return np.kron(np.kron(np.eye(before), mat), np.eye(after))


def tdval(td, t):
    return td['a'] + td['b'] * math.cos(td['w'] * t + td.get('p', 0.0))


def hamiltonian(spec, s):
    sysm = spec['systems'][s]
    n = int(np.prod(dims(sysm)))
    h = np.zeros((n, n), dtype=complex)
    for i, leaf in enumerate(sysm['leaves']):
        for term in leaf['terms']:
            h += term['freq'] * embed(sysm, i, np.linalg.matrix_power(op(term['op'], leaf['dim']), term.get('order', 1)))
    for c in sysm.get('couplings', []):
        h += coupling(sysm, c)
    return h


def coupling(sysm, c):
    if c['kind'] == 'term':
        m = None
        for i, name, order in zip(c['leaves'], c['ops'], c.get('orders') or [1] * len(c['ops'])):
            e = embed(sysm, i, np.linalg.matrix_power(op(name, sysm['leaves'][i]['dim']), order))
            m = e if m is None else m @ e
        return c['freq'] * m
    cav, qub = c['leaves']
    a = embed(sysm, cav, op('destroy', sysm['leaves'][cav]['dim']))
    d = sysm['leaves'][qub]['dim']
    if c['kind'] == 'JC':
        b = embed(sysm, qub, op('Jp', d))
        return c['freq'] * (a @ b + a.conj().T @ b.conj().T)
    if c['kind'] == 'Rabi':
        b = embed(sysm, qub, op('sigmax', d))
    else:
        b = embed(sysm, qub, op('Jx', d))
    return c['freq'] * (a @ b + a.conj().T @ b)


def leaf_state(dim, inp, amplitudes=False):
    v = np.zeros(dim, dtype=complex)
    if isinstance(inp, dict):
        for k, w in inp.items():
            v[int(k)] = w if amplitudes else math.sqrt(w)
    elif isinstance(inp, (list, tuple)):
        for k in inp:
            v[int(k)] = 1
    else:
        v[int(inp)] = 1
    if not np.any(v):
        raise KeyError('no state')
    return v / np.linalg.norm(v)


def initial_state(spec, s, inp=None):
    sysm = spec['systems'][s]
    inp = sysm['init'] if inp is None else inp
    if not sysm['comp']:
        return leaf_state(sysm['leaves'][0]['dim'], inp)
    out = np.ones(1, dtype=complex)
    for leaf, i in zip(sysm['leaves'], inp):
        out = np.kron(out, leaf_state(leaf['dim'], i))
    return out


# ---- protocols -------------------------------------------------------------------------------------------------

def rot(step, spec, s):
    sysm = spec['systems'][s]
    n = int(np.prod(dims(sysm)))
    u = np.eye(n, dtype=complex)
    for i in step['leaves']:
        d = sysm['leaves'][i]['dim']
        if step['kind'] == 'xgate' and step.get('impl'):
            g = expm_h(op('sigma' + step['axis'], 2), step['angle'] / 2)
        else:
            g = expm_h(op('J' + step['axis'], d), step.get('phase', 1) * step['angle'])
        u = embed(sysm, i, g) @ u
    return u


def step_unitary(spec, pro, step, dt, fixed):
    """Unitary of one step; `fixed` holds the matrices of fixed steps (built once, at the start of a run)."""
    kind = step['kind']
    if kind == 'ref':
        other = spec['protocols'][step['p']]
        return step_unitary(spec, other, other['steps'][step['of']], dt, fixed)
    if kind in ('copy', 'hc'):
        u = step_unitary(spec, pro, pro['steps'][step['of']], dt, fixed)
        return u.conj().T if kind == 'hc' else u
    if step.get('fixed') and fixed is not None:
        key = step['id']
        if key not in fixed:
            fixed[key] = step_unitary(spec, pro, step, dt, None)
        return fixed[key]
    if step.get('updates'):
        spec = copy.deepcopy(spec)
        for up in step['updates']:
            put_update(spec, up)
        step = dict(step, updates=[])
    if kind == 'free':
        return expm_h(hamiltonian(spec, pro['sys']), dt * step.get('ratio', 1) / step.get('samples', 1))
    if kind in ('rot', 'xgate'):
        return rot(step, spec, pro['sys'])
    if kind == 'nested':
        u = None
        for st in step['steps']:
            v = step_unitary(spec, step, st, dt, fixed)
            u = v if u is None else v @ u
        return u
    raise KeyError(kind)


# ---- open systems: superoperators on column-stacked density matrices ----------------------------------------------

def is_open(pro):
    return bool(pro.get('diss')) or any(is_open(st) for st in pro.get('steps') or [])


def super_of(u):
    return np.kron(u.conj(), u)


def nbar(temp, freq=1.0):
    return 0.0 if not temp else 1.0 / (math.exp(freq / temp) - 1.0)


def diss_nbar(sysm, k):
    for b in sysm.get('baths', []):
        if k in b['diss']:
            return nbar(b['temp'], b['bfreq'])
    return nbar(sysm['diss'][k].get('temp', 0))


def liouvillian(spec, s, diss):
    h = hamiltonian(spec, s)
    n = len(h)
    one = np.eye(n)
    out = -1j * (np.kron(one, h) - np.kron(h.T, one))
    sysm = spec['systems'][s]
    for k in diss:
        d = sysm['diss'][k]
        c = embed(sysm, d['leaf'], op(d['op'], sysm['leaves'][d['leaf']]['dim']))
        cc = c.conj().T @ c
        rate = d['rate'] * (diss_nbar(sysm, k) + 1)
        out = out + rate * (np.kron(c.conj(), c) - 0.5 * np.kron(one, cc) - 0.5 * np.kron(cc.T, one))
    return out


def step_super(spec, pro, step, dt, fixed, diss):
    """As step_unitary, for a protocol with dissipation; `diss` are the dissipators of the enclosing protocols."""
    kind = step['kind']
    if kind in ('copy', 'hc'):
        u = step_super(spec, pro, pro['steps'][step['of']], dt, fixed, diss)
        return u.conj().T if kind == 'hc' else u
    if step.get('fixed') and fixed is not None:
        key = step['id']
        if key not in fixed:
            fixed[key] = step_super(spec, pro, step, dt, None, diss)
        return fixed[key]
    if step.get('updates'):
        spec = copy.deepcopy(spec)
        for up in step['updates']:
            put_update(spec, up)
        step = dict(step, updates=[])
    diss = diss + list(step.get('diss', []))
    if kind == 'free':
        return expm_any(liouvillian(spec, pro['sys'], diss) * dt * step.get('ratio', 1))
    if kind in ('rot', 'xgate'):
        return super_of(rot(step, spec, pro['sys']))
    if kind == 'nested':
        u = None
        for st in step['steps']:
            v = step_super(spec, step, st, dt, fixed, diss)
            u = v if u is None else v @ u
        return u
    raise KeyError(kind)


def protocol_unitary(spec, p, fixed=None):
    pro = spec['protocols'][p]
    dt, _ = steps_of(pro_sim(spec, p))
    if is_open(pro):
        return step_super(spec, pro, dict(pro, kind='nested' if pro['kind'] == 'qpro' else 'free'), dt, fixed, [])
    return step_unitary(spec, pro, dict(pro, kind='nested') if pro['kind'] == 'qpro' else dict(pro, kind='free'), dt, fixed)


def live(spec):
    """Indices of the protocols that are in the simulation, in its order."""
    return list(spec['in']) if spec.get('in') is not None else list(range(len(spec['protocols'])))


def first_live(spec, s):
    """The protocol whose states a system's callbacks receive, or None."""
    for p in live(spec):
        if spec['protocols'][p]['sys'] == s:
            return p
    return None


def pro_sim(spec, p):
    return spec['sim']


def points(spec):
    """Index tuples of the sweep, first sweep outermost, and for each the parameter assignments."""
    groups = []
    for sw in spec.get('sweeps', []):
        if sw.get('comb') or not groups:
            groups.append([sw])
        else:
            groups[-1].append(sw)
    shape = [len(g[0]['values']) for g in groups]
    out = []
    for idx in itertools.product(*[range(n) for n in shape]):
        sets = []
        for i, g in zip(idx, groups):
            for sw in g:
                for path in sw['paths']:
                    sets.append((path, sw['values'][i]))
        out.append((idx, sets))
    return shape, out


def at_point(spec, sets):
    s = copy.deepcopy(spec)
    for path, val in sets:
        put(s, path, val)
    return s


def apply_td(spec, t):
    """Continuous time dependence of terms at time t (in place)."""
    for sysm in spec['systems']:
        for leaf in sysm['leaves']:
            for term in leaf['terms']:
                if term.get('td'):
                    term['freq'] = tdval(term['td'], t)
        for c in sysm.get('couplings', []):
            if c.get('td'):
                c['freq'] = tdval(c['td'], t)


def has_td(spec):
    return any(t.get('td') for s in spec['systems'] for leaf in s['leaves'] for t in leaf['terms']) or \
        any(c.get('td') for s in spec['systems'] for c in s.get('couplings', []))


def evolve(spec, fixed):
    """One evolution with the parameters of `spec`; returns dt and, per protocol, the state at every instant."""
    spec = copy.deepcopy(spec)
    dt, n = steps_of(spec['sim'])
    tds = spec.get('tdsweeps', [])
    states = [[initial_state(spec, p['sys'], p.get('init'))] for p in spec['protocols']]
    for pro, st in zip(spec['protocols'], states):
        if is_open(pro):
            st[0] = np.outer(st[0], st[0].conj())
    samples = [[[]] for _ in spec['protocols']]
    hams = None
    if not has_td(spec):
        hams = [[hamiltonian(spec, s) for s in range(len(spec['systems']))]]
    dynamic = bool(tds) or has_td(spec)
    us = None
    for k in range(1, n + 1):
        if tds:
            for t in tds:
                val = t['values'][(k - 1) % len(t['values'])] if t['kind'] == 'list' else tdval(t['fn'], k * dt)
                for path in t['paths']:
                    put(spec, path, val)
        if has_td(spec):
            apply_td(spec, k * dt)
        if us is None or dynamic:
            us = [protocol_unitary(spec, p, fixed) for p in range(len(spec['protocols']))]
        if hams:
            hams.append([hamiltonian(spec, s) for s in range(len(spec['systems']))] if tds else hams[-1])
        for p, u in enumerate(us):
            pro = spec['protocols'][p]
            if is_open(pro):
                rho = states[p][-1]
                states[p].append((u @ rho.T.reshape(-1)).reshape(rho.shape).T)
                samples[p].append([])
            elif pro['kind'] == 'qpro' and any(st.get('samples', 1) > 1 for st in pro['steps']):
                cur = states[p][-1]
                smp = []
                for st in pro['steps']:
                    v = step_unitary(spec, pro, st, dt, fixed)
                    base = pro['steps'][st['of']] if st['kind'] in ('copy', 'hc') else st
                    for _ in range(base.get('samples', 1)):
                        cur = v @ cur
                        smp.append(cur)
                states[p].append(cur)
                samples[p].append(smp)
            else:
                states[p].append(u @ states[p][-1])
                samples[p].append([])
    return {'dt': dt, 'n': n, 'states': states, 'samples': samples, 'hams': hams}


def run(spec):
    """The whole run: shape of the sweep and one evolution per point, in row-major order."""
    fixed = {}
    base = copy.deepcopy(spec)
    apply_td(base, 0.0)
    dt, _ = steps_of(base['sim'])

    def build(pro, opened, diss):           # fixed steps are built at the start of a run
        diss = diss + list(pro.get('diss', []))
        for st in pro.get('steps') or []:
            if st.get('fixed') and opened:
                step_super(base, pro, st, dt, fixed, diss)
            elif st.get('fixed'):
                step_unitary(base, pro, st, dt, fixed)
            elif st['kind'] == 'nested':
                build(st, opened, diss)
    for pro in base['protocols']:
        build(pro, is_open(pro), [])
    shape, pts = points(spec)
    evs = []
    for idx, sets in pts:
        ev = evolve(at_point(spec, sets), fixed)
        ev['idx'] = idx
        ev['sets'] = sets
        evs.append(ev)
    return shape, evs
