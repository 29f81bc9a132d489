"""C14: time settings, initial states and the keep-states switch of a simulation and of the parts bound to it."""
import copy
from types import SimpleNamespace

import numpy as np

from .. import model
from ..callbacks import Cb, TD, dense, maybe_fail
from ..hub import H, SimHang
from ..session import HarnessError, Session, Violation, brief, close, lib, short
from .runs import parallel_op

ATTR = {'T': 'totalTime', 'dt': 'stepSize', 'count': 'stepCount'}
SIMATTR = {'T': 'simTotalTime', 'dt': 'simStepSize', 'count': 'simStepCount'}


def _q():
    import quanguru
    return quanguru


class TimeCb(Cb):
    """preCompute of the simulation: what every part says its time settings are, at this point of the sweep."""

    def __call__(self, obj, states=None):
        H.point += 1
        rows = []
        for pro, qs in obj.subSys.items():
            row = [pro.simulation.totalTime, pro.simulation.stepSize, qs.simulation.totalTime, qs.simulation.stepSize]
            steps = [] if pro._internal else list(pro.subSys.values())
            row.append([getattr(getattr(st, 'simulation', None), 'stepSize', None) for st in steps])
            rows.append(row)
        H.ev('tim', obj.totalTime, obj.stepSize, obj.stepCount, rows)
        maybe_fail(self.tag)


# ---- the reference model ----------------------------------------------------------------------------------------------

class Node:
    """A simulation, system, protocol or step: what it was given itself, and where everything else comes from."""

    def __init__(self):
        self.own = {}
        self.parent = None
        self.count = None            # a step count given while the total time is not known (root only)
        self.seen = {'T': [], 'dt': []}
        self.derived = []            # step sizes that follow from its own total time and a step count of its parent

    def eff(self, attr):
        """The values this setting may have."""
        if attr in self.own:
            return [self.own[attr]]
        if self.parent is None:
            if attr == 'T' and self.count is not None and 'dt' in self.own:
                return [None, self.count * self.own['dt']]
            return [None]
        out = list(self.parent.eff(attr))
        if 'T' in self.own or 'dt' in self.own:
            # total time, step size and count depend on each other: giving one of them may also tie down the others
            out += self.seen[attr]
            if attr == 'dt':
                out += self.derived
        return out

    def note(self):
        up = self.parent
        while up is not None:
            if up.count is not None and 'T' in self.own and self.own['T'] / up.count not in self.derived:
                self.derived.append(self.own['T'] / up.count)
            up = up.parent
        if self.parent is not None:
            for attr in ('T', 'dt'):
                for v in self.parent.eff(attr):
                    if not ok(v, self.seen[attr]):
                        self.seen[attr].append(v)

    def settime(self, attr, val):
        if attr == 'count':
            t = self.eff('T')[-1] if self.count is None else None
            if t is None:
                self.count = val
            else:
                self.own['dt'] = t / val
            return
        self.own[attr] = val
        if attr == 'T' and 'dt' not in self.own and self.count is not None:
            self.own['dt'] = val / self.count
        if attr == 'T':
            self.count = None

    def flag(self):
        if 'del' in self.own:
            return self.own['del']
        return self.parent.flag() if self.parent is not None else False

    def init(self):
        if 'init' in self.own:
            return self.own['init']
        return self.parent.init() if self.parent is not None else None


def ok(v, allowed):
    for a in allowed:
        if a is None or v is None:
            if a is v:
                return True
        elif abs(a - v) <= 1e-12 * max(1.0, abs(a)):
            return True
    return False


class TModel:
    def __init__(self, spec):
        self.spec = spec
        self.nodes = {'S': Node()}
        self.dims = [s['dim'] for s in spec['systems']]
        for i in range(len(spec['systems'])):
            self.nodes['q%d' % i] = self.nodes['S'] if spec['mode'] == 'sys' else Node()
        for i, p in enumerate(spec['pros']):
            n = self.nodes['p%d' % i] = Node()
            if not p.get('late'):
                n.parent = self.nodes['q%d' % p['sys']]
            for k, st in enumerate(p.get('steps') or []):
                if st['kind'] == 'free':
                    self.nodes['s%d.%d' % (i, k)] = m = Node()
                    m.parent = n
        self.note()

    def note(self):
        for _ in range(3):
            for n in self.nodes.values():
                n.note()

    def apply(self, o):
        k = o['op']
        if k == 'time':
            self.nodes[o['node']].settime(o['attr'], o['val'])
        elif k == 'adopt':
            self.nodes['p%d' % o['i']].parent = self.nodes['q%d' % self.spec['pros'][o['i']]['sys']]
        elif k == 'join':
            if self.spec['mode'] != 'sys':
                self.nodes['q%d' % self.spec['pros'][o['i']]['sys']].parent = self.nodes['S']
        elif k == 'init':
            self.nodes[o['node']].own['init'] = o['val']
        elif k == 'dim':
            self.dims[int(o['node'][1:])] = o['val']
        elif k == 'del':
            self.nodes[o['node']].own['del'] = o['val']
        self.note()

    def set(self, tgt, val):
        node, attr = tgt
        if attr == 'dim':
            self.dims[int(node[1:])] = val
            return
        self.nodes[node].own[attr] = val
        self.note()


# ---- the real objects -------------------------------------------------------------------------------------------------

class TSession(Session):
    def __init__(self, spec):  # pylint: disable=super-init-not-called
        self.q = q = _q()
        self.tspec = spec
        self.snapshots, self.sticky = [], None
        H.active = True
        self.m = TModel(spec)
        self.order = []
        self.sweeps = []
        with lib():
            qs, pros = [], []
            self.steps = {}
            for i, s in enumerate(spec['systems']):
                a = q.Spin(dimension=s['dim'], frequency=s['f'])
                t = a.createTerm(operator=q.Jx, frequency=s['g'])
                if s.get('td'):
                    t.timeDependency = TD('s%d' % i, s['td'])
                qs.append(a)
            for i, p in enumerate(spec['pros']):
                qsys = qs[p['sys']]
                if p['kind'] == 'default':
                    pros.append(qsys._freeEvol)
                    continue
                cls = q.freeEvolution if p['kind'] == 'free' else q.qProtocol
                o = cls() if p.get('late') else cls(superSys=qsys)
                if p['kind'] == 'free' and p.get('ratio'):
                    o.ratio = p['ratio']
                for k, st in enumerate(p.get('steps') or []):
                    if st['kind'] == 'free':
                        x = q.freeEvolution() if p.get('late') else q.freeEvolution(superSys=qsys)
                        x.ratio = st.get('ratio', 1)
                        self.steps['s%d.%d' % (i, k)] = x
                    else:
                        x = q.xGate(system=[qsys], angle=st['angle'])
                    o.addStep(x)
                pros.append(o)
            sim = qs[0].simulation if spec['mode'] == 'sys' else q.Simulation()
            sim.preCompute = TimeCb('sim', 'pre')
            sim.compute = Cb('sim', 'compute', trace=False)
        self.w = SimpleNamespace(sim=sim, systems=qs, protocols=pros)
        self.spec = {'sim': {'T': 1, 'dt': 1}}

    def obj(self, node):
        if node == 'S':
            return self.w.sim
        if node[0] == 's':
            return self.steps[node]
        return (self.w.systems if node[0] == 'q' else self.w.protocols)[int(node[1:])]

    def put(self, node, attr, val, via=0):
        o = self.obj(node)
        sim = o if node == 'S' else o.simulation
        if attr in ATTR:
            if node == 'S' or via == 0:
                setattr(sim, ATTR[attr], val)
            elif via == 1:
                setattr(o, SIMATTR[attr], val)
            else:
                setattr(o, ATTR[attr], val)
        elif attr == 'init':
            v = {int(k): x for k, x in val.items()} if isinstance(val, dict) else val
            o.initialState = v
        elif attr == 'dim':
            o.dimension = val
        elif node != 'S' and via == 1:
            o.simDelStates = val
        else:
            sim.delStates = val

    def do(self, o):
        k = o['op']
        if k == 'run':
            self.perform(o)
            return
        self.m.apply(o)
        with lib():
            if k == 'time':
                self.put(o['node'], o['attr'], o['val'], o.get('via', 0))
            elif k in ('init', 'dim'):
                self.put(o['node'], k, o['val'])
            elif k == 'del':
                self.put(o['node'], 'del', o['val'], o.get('via', 0))
            elif k == 'adopt':
                i = o['i']
                self.w.protocols[i].superSys = self.w.systems[self.tspec['pros'][i]['sys']]
                for n, x in self.steps.items():
                    if n.startswith('s%d.' % i):
                        x.superSys = self.w.systems[self.tspec['pros'][i]['sys']]
            elif k == 'join':
                self.join(o['i'])
            elif k == 'sweep':
                self.sweep(o)
            elif k == 'unsweep':
                for s, _ in self.sweeps:
                    self.w.sim.Sweep.removeSweep(s)
                self.sweeps = []
            elif k == 'count':
                got = self.w.sim.stepCount
                t, dt = self.m.nodes['S'].own['T'], self.m.nodes['S'].own['dt']
                if got != int(t // dt + 1):
                    raise Violation('count', 'the step count reads %s with total time %s and step size %s' % (got, t, dt))
            else:
                raise HarnessError(k)

    def join(self, i):
        p = self.tspec['pros'][i]
        qsys = self.w.systems[p['sys']]
        if self.tspec['mode'] == 'sys':
            if p['kind'] != 'default':
                if self.order:
                    qsys.addProtocol(self.w.protocols[i])
                else:
                    qsys.addProtocol(self.w.protocols[i], protocolRemove=qsys._freeEvol)
        elif p['kind'] == 'default':
            self.w.sim.addSubSys(qsys)
        else:
            self.w.sim.addSubSys(qsys, self.w.protocols[i])
        self.order.append(i)

    def sweep(self, o):
        node, attr = o['target']
        obj = self.obj(node)
        if attr == 'init':
            key, vals = 'initialState', [{int(k): x for k, x in v.items()} if isinstance(v, dict) else v
                                         for v in o['values']]
        elif attr == 'dim':
            key, vals = 'dimension', list(o['values'])
        else:
            obj = obj if node == 'S' else obj.simulation
            key, vals = ATTR[attr], list(o['values'])
        s = self.w.sim.Sweep.createSweep(system=obj, sweepKey=key, sweepList=vals)
        if self.sweeps:
            s.combinatorial = True
        self.sweeps.append((s, o))

    def check_settings(self, what):
        for name, n in self.m.nodes.items():
            o = self.obj(name)
            sim = o if name == 'S' else o.simulation
            for attr in ('T', 'dt'):
                with lib():
                    got = getattr(sim, ATTR[attr])
                exp = n.eff(attr)
                if not ok(got, exp):
                    raise Violation('setting', 'after %s the %s of %s is %s, expected %s' % (
                        what, ATTR[attr], name, got, exp[0] if len(exp) == 1 else 'one of %s' % exp))
            with lib():
                got = sim.delStates
            if bool(got) != n.flag():
                raise Violation('setting', 'after %s delStates of %s is %s, expected %s' % (what, name, got, n.flag()))

    def check_init(self, what):
        for name, n in self.m.nodes.items():
            if name[0] == 's' or (name == 'S' and self.tspec['mode'] != 'sys') or n.init() is None:
                continue
            with lib():
                got = dense(self.obj(name).initialState)
            exp = state(n.init(), self.m.dims[self.tspec['pros'][int(name[1:])]['sys'] if name[0] == 'p' else
                                             0 if name == 'S' else int(name[1:])])
            if not close(got, exp):
                raise Violation('initial', 'after %s the initial state of %s is %s, expected %s' % (
                    what, name, brief(got), brief(exp)))

    def perform(self, o):
        self.m.apply(o)
        out = self.run(o)
        what = 'run (p=%s)' % o.get('p')
        self.last = out
        shape = [len(s['values']) for _, s in self.sweeps]
        pts = list(np.ndindex(*shape)) if shape else [()]
        if o.get('faults'):
            if isinstance(out.exc, SimHang):
                raise Violation('hang', '%s never ends: %s' % (what, out.exc))
            if out.exc is not None and not out.fired:
                raise Violation('unexpected-error', '%s raised %s' % (what, short(out.exc)))
        else:
            self.check_ok(out, what)
            evs = []
            for _, _, tr in calls(out.trace):
                evs += [e for e in tr if e[0] == 'tim']
            if len(evs) != len(pts):
                raise Violation('evolutions', '%s: %d evolutions for %d points' % (what, len(evs), len(pts)))
            for idx in pts:
                m = copy.deepcopy(self.m)
                for k, (_, s) in zip(idx, self.sweeps):
                    m.set(s['target'], s['values'][k])
                fit = None
                why = None
                for e in evs:
                    msg = self.wrong(m, e)
                    if msg is None and self.states_wrong(m, e, idx, what) is None:
                        fit = e
                        break
                    why = why or (msg or self.states_wrong(m, e, idx, what))
                    if not out.parallel:
                        break
                if fit is None:
                    raise Violation('used', '%s, point %s: %s' % (what, list(idx), why))
                evs.remove(fit)
        # put the caller's values back after a serial sweep
        with lib():
            for _, s in self.sweeps:
                node, attr = s['target']
                self.put(node, attr, self.m.dims[int(node[1:])] if attr == 'dim' else self.m.nodes[node].own[attr])

    def wrong(self, m, e):
        _, t, dt, cnt, rows = e
        s = m.nodes['S']
        if not ok(t, s.eff('T')) or not ok(dt, s.eff('dt')):
            return 'the simulation runs with total time %s and step size %s, expected %s and %s' % (
                t, dt, s.eff('T')[-1], s.eff('dt')[-1])
        t = s.eff('T')[-1]
        if cnt != int(t // dt + 1):
            return 'the simulation makes %s steps with total time %s and step size %s' % (cnt, t, dt)
        for i, row in zip(self.order, rows):
            p = self.tspec['pros'][i]
            for nm, a, b in (('p%d' % i, row[0], row[1]), ('q%d' % p['sys'], row[2], row[3])):
                for attr, v in (('T', a), ('dt', b)):
                    if not ok(v, m.nodes[nm].eff(attr)):
                        return 'during the run the %s of %s is %s, expected %s' % (
                            ATTR[attr], nm, v, m.nodes[nm].eff(attr))
            for k, st in enumerate(p.get('steps') or []):
                if st['kind'] == 'free' and not ok(row[4][k], m.nodes['s%d.%d' % (i, k)].eff('dt')):
                    return 'during the run the step size of step %d of p%d is %s, expected %s' % (
                        k, i, row[4][k], m.nodes['s%d.%d' % (i, k)].eff('dt'))
        return None

    def states_wrong(self, m, e, idx, what):
        _, t, dt, cnt, rows = e
        sim = self.w.sim
        for i, row in zip(self.order, rows):
            p = self.tspec['pros'][i]
            name = self.w.systems[p['sys']].name if p['kind'] == 'default' else self.w.protocols[i].name
            key = str(name) + 'Results'
            stored = sim.qRes.states
            got = stored[key] if key in stored else []
            if m.nodes['p%d' % i].flag():
                if len(got):
                    return 'p%d discards its states, but %d are stored' % (i, len(got))
                continue
            node = got
            for k in idx:
                if not isinstance(node, list) or k >= len(node):
                    return 'p%d: no states stored for the point' % i
                node = node[k]
            exp = self.reference(m, i, row, cnt)
            if not isinstance(node, list) or len(node) != len(exp):
                return 'p%d: %s states are stored, expected %d' % (
                    i, len(node) if isinstance(node, list) else 'no', len(exp))
            for k, (a, b) in enumerate(zip(node, exp)):
                if not close(dense(a), b):
                    return 'p%d: state %d is %s, expected %s' % (i, k, brief(dense(a)), brief(b))
        return None

    def reference(self, m, i, row, cnt):
        p = self.tspec['pros'][i]
        s = self.tspec['systems'][p['sys']]
        d = m.dims[p['sys']]
        psi = state(m.nodes['p%d' % i].init(), d)
        out = [psi]
        for k in range(1, cnt + 1):
            g = model.tdval(s['td'], row[3] * k) if s.get('td') else s['g']
            h = s['f'] * model.op('Jz', d) + g * model.op('Jx', d)
            if p['kind'] != 'qpro':
                psi = model.expm_h(h, row[1] * p.get('ratio', 1)) @ psi
            else:
                for j, st in enumerate(p['steps']):
                    if st['kind'] == 'free':
                        psi = model.expm_h(h, row[4][j] * st.get('ratio', 1)) @ psi
                    else:
                        psi = model.expm_h(model.op('Jx', d), st['angle']) @ psi
            out.append(psi)
        return out


def calls(trace):
    from ..session import calls_by_task
    return calls_by_task(trace)


def state(inp, dim):
    return model.leaf_state(dim, inp)


# ---- generation -------------------------------------------------------------------------------------------------------

DTS = [0.1, 0.25, 0.5, 0.2, 0.3, 0.05]
TS = [0.45, 1.0, 0.6, 0.7, 1.1, 0.3]


def rinit(r):
    x = r.random()
    if x < 0.6:
        return r.randrange(2)
    return {'0': 0.3, '1': 0.7} if x < 0.8 else {'0': 0.6, '1': 0.4}


class C14:
    runs = {'quick': 2700, 'thorough': 40000}

    @staticmethod
    def gen(r, tier):
        mode = 'sys' if r.random() < 0.3 else 'explicit'
        nsys = 1 if mode == 'sys' else r.choice([1, 1, 2])
        spec = {'mode': mode, 'systems': [], 'pros': []}
        for _ in range(nsys):
            s = {'dim': r.choice([2, 2, 3]), 'f': r.choice([1.0, -0.7, 2.1]), 'g': r.choice([0.4, 1.3, -0.9])}
            if r.random() < 0.35:
                s['td'] = {'a': 0.4, 'b': r.choice([1.0, -1.5]), 'w': r.choice([0.7, 2.9]), 'p': 0.4}
            spec['systems'].append(s)
        for s in range(nsys):
            for k in range(r.choice([1, 1, 2])):
                kind = r.choice(['default', 'free', 'qpro', 'qpro'] if k == 0 else ['free', 'qpro'])
                p = {'sys': s, 'kind': kind}
                if kind == 'free' and r.random() < 0.5:
                    p['ratio'] = r.choice([0.5, 2])
                if kind == 'qpro':
                    p['steps'] = [{'kind': 'free', 'ratio': r.choice([1, 0.5, 2])} if r.random() < 0.6 else
                                  {'kind': 'gate', 'angle': r.choice([0.4, -1.1])} for _ in range(r.randint(1, 3))]
                if kind in ('free', 'qpro') and r.random() < 0.25:
                    p['late'] = True
                spec['pros'].append(p)
        pre = []                     # settings in any order, before, between and after joining
        root = r.choice([['T', 'dt'], ['dt', 'T'], ['T', 'count'], ['count', 'T'], ['dt', 'count'], ['count', 'dt']])
        own = {}
        for a in root:
            pre.append({'op': 'time', 'node': 'S', 'attr': a,
                        'val': r.randint(1, 5) if a == 'count' else r.choice(TS if a == 'T' else DTS)})
        if mode == 'sys' and r.random() < 0.5:
            for o in pre:
                o.update(node='q0', via=r.choice([0, 1, 2]))
        body = []
        nodes = (['q%d' % s for s in range(nsys)] if mode == 'explicit' else []) + \
            ['p%d' % i for i in range(len(spec['pros']))]
        for n in nodes:
            if r.random() < 0.3:
                for a in r.choice([['dt'], ['T'], ['dt', 'T'], ['T', 'dt']]):
                    body.append({'op': 'time', 'node': n, 'attr': a, 'val': r.choice(TS if a == 'T' else DTS),
                                 'via': r.choice([0, 1, 2])})
                    own.setdefault(n, []).append(a)
        for n in nodes + ['S']:
            if r.random() < 0.2:
                body.append({'op': 'del', 'node': n, 'val': r.random() < 0.5, 'via': r.randrange(2)})
        for i, p in enumerate(spec['pros']):
            if p.get('late'):
                body.append({'op': 'adopt', 'i': i})
        pre = interleave(r, pre, shuffled(r, body))
        for s in range(nsys):
            pre = interleave(r, pre, [{'op': 'init', 'node': 'q%d' % s, 'val': rinit(r)}])
        order = list(range(len(spec['pros'])))
        joins = [{'op': 'join', 'i': i} for i in order]
        ops = interleave(r, pre, joins)
        # a protocol joins after it belongs to a system
        for i in order:
            if spec['pros'][i].get('late'):
                a = next(k for k, o in enumerate(ops) if o['op'] == 'adopt' and o['i'] == i)
                j = next(k for k, o in enumerate(ops) if o['op'] == 'join' and o['i'] == i)
                if j < a:
                    ops[a], ops[j] = ops[j], ops[a]
                    # keep the joins in order
                    js = iter(joins)
                    ops = [next(js) if o['op'] == 'join' else o for o in ops]
        ops = fix_late(spec, ops)
        for i in order:
            if r.random() < 0.2:
                k = next(k for k, o in enumerate(ops) if o['op'] == 'join' and o['i'] == i)
                ops.insert(r.randint(k + 1, len(ops)), {'op': 'init', 'node': 'p%d' % i, 'val': rinit(r)})
                own.setdefault('p%d' % i, []).append('init')
            for k, st in enumerate(spec['pros'][i].get('steps') or []):
                if st['kind'] == 'free' and r.random() < 0.1:
                    ops.append({'op': 'time', 'node': 's%d.%d' % (i, k), 'attr': 'dt', 'val': r.choice(DTS),
                                'via': r.choice([0, 1, 2])})
                    own.setdefault('s%d.%d' % (i, k), []).append('dt')
        swept = []
        tset = 'T' in root and 'dt' in root
        for n in range(r.choice([1, 2, 3])):
            x = r.random()
            if n and x < 0.6:
                node = r.choice(['S'] + nodes)
                y = r.random()
                if y < 0.15:
                    s = r.randrange(nsys)
                    if ('q%d' % s, 'dim') not in swept:
                        ops.append({'op': 'dim', 'node': 'q%d' % s, 'val': r.choice([2, 3, 4])})
                elif y < 0.5:
                    a = r.choice(['T', 'dt'])
                    if node == 'S' and not tset:
                        a = 'T' if 'T' in root else None
                    if a and (node, a) not in swept:
                        ops.append({'op': 'time', 'node': node, 'attr': a, 'val': r.choice(TS if a == 'T' else DTS),
                                    'via': r.choice([0, 1, 2]) if node != 'S' else 0})
                        own.setdefault(node, []).append(a)
                elif y < 0.75:
                    node = r.choice(['q%d' % s for s in range(nsys)] + ['p%d' % i for i in order])
                    if (node, 'init') not in swept:
                        ops.append({'op': 'init', 'node': node, 'val': rinit(r)})
                        own.setdefault(node, []).append('init')
                else:
                    ops.append({'op': 'del', 'node': node, 'val': r.random() < 0.5, 'via': r.randrange(2)})
            if r.random() < 0.35:
                tg = [('q%d' % s, 'init') for s in range(nsys)] + [('q%d' % s, 'dim') for s in range(nsys)]
                if tset:
                    tg += [('S', 'dt'), ('S', 'T')] * 2
                for nm, at in own.items():
                    if 'init' in at:
                        tg.append((nm, 'init'))
                    if 'dt' in at and nm != 'S':
                        tg.append((nm, 'dt'))
                tg = [t for t in tg if t not in swept]
                if swept and r.random() < 0.3:
                    ops.append({'op': 'unsweep'})
                    swept = []
                elif tg and len(swept) < 2:
                    t = r.choice(tg)
                    swept.append(t)
                    pool = {'dt': DTS, 'T': TS, 'dim': [2, 3, 4]}.get(t[1])
                    vals = [r.choice(pool) if pool else rinit(r) for _ in range(r.randint(1, 3))]
                    ops.append({'op': 'sweep', 'target': list(t), 'values': vals})
            if tset and r.random() < 0.15:
                ops.append({'op': 'count'})
            o = parallel_op(r) if r.random() < 0.35 else {'op': 'run', 'p': False}
            if r.random() < 0.15:
                o['faults'] = [{'kind': 'cb_raise', 'site': r.choice(['sim.pre', 'sim.compute']), 'point': 0, 'k': 1,
                                'exc': r.choice(['ValueError', 'KeyboardInterrupt'])}]
                ops.append(o)
                o = {'op': 'run', 'p': False}
            ops.append(o)
        return {'spec': spec, 'ops': ops, 'strict': r.random() < 0.5}

    @staticmethod
    def execute(case, ctx):
        s = TSession(case['spec'])
        for n, o in enumerate(case['ops']):
            s.do(o)
            what = 'operation %d (%s)' % (n, ' '.join(str(o[k]) for k in ('op', 'node', 'attr', 'i', 'val') if k in o))
            s.check_settings(what)
            if case.get('strict') and not any(x['op'] == 'run' for x in case['ops'][n:][:1]):
                if all(x['op'] not in ('join', 'adopt') for x in case['ops'][n + 1:]):
                    s.check_init(what)
            ctx.checked += len(s.m.nodes)
            ctx.sig(o['op'], o.get('node', 'x')[0], o.get('attr'), o.get('via'),
                    [sorted(x.own) for x in s.m.nodes.values()])
            if o['op'] == 'run':
                ctx.note_run(s.last)


def shuffled(r, xs):
    xs = list(xs)
    r.shuffle(xs)
    return xs


def interleave(r, a, b):
    out = []
    a, b = list(a), list(b)
    while a or b:
        src = a if a and (not b or r.random() < len(a) / (len(a) + len(b))) else b
        out.append(src.pop(0))
    return out


def fix_late(spec, ops):
    """A protocol without a system cannot be given an initial state or join: adopt it right before."""
    adopted = set()
    out = []
    for o in ops:
        if o['op'] == 'join' and spec['pros'][o['i']].get('late') and o['i'] not in adopted:
            out.append({'op': 'adopt', 'i': o['i']})
            adopted.add(o['i'])
        if o['op'] == 'adopt':
            if o['i'] in adopted:
                continue
            adopted.add(o['i'])
        out.append(o)
    return out
