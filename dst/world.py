"""Builds the real objects a spec describes and gives every spec path its object and attribute."""
import os

import numpy as np
from scipy.sparse import csc_matrix

from . import model
from .callbacks import Cb, TD, UserEvol, SweepFn, SweepPick, UpdateFn
from .gen import range_values
from .hub import H


def ops(q):
    from quanguru.QuantumToolbox import operators as o
    out = {n: getattr(o, n) for n in ('number', 'destroy', 'create', 'Jz', 'Jx', 'Jy', 'Jp', 'Jm', 'sigmax', 'sigmay',
                                      'sigmaz', 'sigmap', 'sigmam')}
    out['cmix'] = lambda dim: o.destroy(dim) + 0.5j * o.Jz((dim - 1) / 2)
    return out


ATTR = {'freq': 'frequency', 'dim': 'dimension', 'jValue': 'jValue', 'dt': 'stepSize', 'T': 'totalTime',
        'count': 'stepCount', 'init': 'initialState', 'angle': 'angle', 'ratio': 'ratio', 'order': 'order',
        'op': 'operator', 'ops': 'operator', 'orders': 'order', 'phase': 'phase', 'axis': 'rotationAxis', 'impl': 'implementation', 'del': 'delStates',
        'fixed': 'fixed', 'samples': 'simSamples', 'rate': 'jRate', 'temp': 'temperature', 'bfreq': 'charFreq', 'value': 'value'}


def real_input(inp):
    """JSON turns integer keys into strings."""
    if isinstance(inp, dict):
        return {int(k): v for k, v in inp.items()}
    if isinstance(inp, list):
        return [real_input(i) for i in inp]
    return inp


def op_args(name, dim):
    """Arguments of an operator function of the library for a given dimension."""
    if name in ('number', 'destroy', 'create', 'cmix'):
        return (dim,)
    if name.startswith('J'):
        return ((dim - 1) / 2,)
    return ()


USER = {}


def user_class(base):
    """A class of the user that extends one of the library, with an attribute of its own."""
    name = 'My' + base.__name__
    if USER.get(name, (None,))[0] is not base:
        def gap_get(self):
            return self.frequency / 2

        def gap_set(self, val):
            self.frequency = 2 * val
        cls = type(name, (base,), {'gap': property(gap_get, gap_set), '__module__': __name__, 'extra': 3})
        globals()[name] = cls
        USER[name] = (base, cls)
    return USER[name][1]


def same_leaf(a, b):
    if a.get('ckw') and a['terms'] and b['terms']:
        a = dict(a, terms=[dict(a['terms'][0], freq=b['terms'][0]['freq'])] + a['terms'][1:])
    return all(a.get(k) == b.get(k) for k in ('cls', 'dim', 'terms', 'user')) and not any(t.get('td') or t.get('tds')
                                                                                  for t in a['terms'])


def same_system(a, b):
    return a['comp'] == b['comp'] and len(a['leaves']) == len(b['leaves']) and \
        all(same_leaf(x, y) for x, y in zip(a['leaves'], b['leaves'])) and \
        all(a.get(k) == b.get(k) for k in ('couplings', 'init', 'tree', 'initarr', 'initby')) and \
        all(c['kind'] == 'term' and not c.get('td') and not c.get('tds') for c in a['couplings']) and not a.get('diss')


class World:
    """The real objects."""

    def __init__(self, q, spec):
        self.q, self.spec = q, spec
        self.op = ops(q)
        self.obj = {}
        self.systems = []
        self.leaves = []
        self.ownalias = {}   # aliases the library itself gives to the parts of a copy
        self.terms = []
        self.coup = []
        self.diss = []
        self.baths = {}
        self.protocols = []
        self.steps = []
        self.sweeps = []
        self.tdsweeps = []
        self.keep = []
        self.removed = {}
        self.shared = []
        self._build()

    # ---- construction -------------------------------------------------------------------------------------------
    def _build(self):
        spec = self.spec
        for s in range(len(spec['systems'])):
            self._system(s)
        for p in range(len(spec['protocols'])):
            self._protocol(p)
        self._sim()
        for sw in spec.get('sweeps', []):
            self._sweep(sw)
        for sw in spec.get('tdsweeps', []):
            self._tdsweep(sw)
        for k in sorted(spec.get('aux', {})):
            self.set(['aux', k], spec['aux'][k])
        self._callbacks()

    def _leaf(self, s, i, made=(), copies=None):
        leaf = self.spec['systems'][s]['leaves'][i]
        of = leaf.get('copyof')
        if of is not None and of < i and of < len(made) and same_leaf(leaf, self.spec['systems'][s]['leaves'][of]):
            kw = {'frequency': leaf['terms'][0]['freq']} if leaf.get('ckw') else {}
            obj = made[of].copy(**kw) if copies is None else copies[i]
            self.ownalias[s, i] = [str(a) for a in obj.alias]
            if leaf.get('alias'):
                obj.alias = leaf['alias']
            return obj, list(obj.terms.values())
        cls = getattr(self.q, leaf['cls'])
        if leaf.get('user'):
            cls = user_class(cls)
        t0 = leaf['terms'][0] if leaf['terms'] else None
        kw = {}
        if leaf['cls'] != 'Qubit':
            if leaf.get('by') == 'jValue':
                kw['jValue'] = (leaf['dim'] - 1) / 2
            else:
                kw['dimension'] = leaf['dim']
        style = leaf.get('style', 0)
        if style == 0 and leaf['cls'] == 'QuantumSystem':
            obj = cls(operator=self.op[t0['op']], frequency=t0['freq'], **kw)
        elif style == 0:
            obj = cls(frequency=t0['freq'], **kw)
        else:
            obj = cls()
            for k, v in kw.items():
                setattr(obj, k, v)
            obj.frequency = t0['freq']
        if leaf.get('alias'):
            obj.alias = leaf['alias']
        terms = []
        default = {'Qubit': 'Jz', 'Spin': 'Jz', 'Cavity': 'number'}.get(leaf['cls'])
        if t0['op'] != default and not (style == 0 and leaf['cls'] == 'QuantumSystem'):
            obj.operator = self.op[t0['op']]
        if t0.get('order', 1) != 1:
            obj.order = t0['order']
        terms.append(list(obj.terms.values())[0])
        for t in leaf['terms'][1:]:
            terms.append(obj.createTerm(operator=self.op[t['op']], frequency=t['freq'], order=t.get('order', 1)))
        for j, t in enumerate(leaf['terms']):
            if t.get('td'):
                terms[j].timeDependency = TD('s%d.l%d.t%d' % (s, i, j), t['td'])
        return obj, terms

    def _system(self, s):
        sysm = self.spec['systems'][s]
        q = self.q
        of = sysm.get('copyof')
        if of is not None and of < s and same_system(sysm, self.spec['systems'][of]):
            self._copied_system(s, of)
            return
        leaves, terms = [], []
        n = len(sysm['leaves'])
        mul = None
        for i in range(n):
            o, t = self._leaf(s, i, leaves, mul)
            if i == 0 and sysm.get('how') == 'mul' and n > 1 and \
                    all(lf.get('copyof') == 0 and not lf.get('ckw') and same_leaf(lf, sysm['leaves'][0]) for lf in sysm['leaves'][1:]):
                whole = n * o
                mul = list(whole.subSys.values())
            leaves.append(o)
            terms.append(t)
        if not sysm['comp']:
            top = leaves[0]
        elif mul is not None:
            top = whole
        else:
            tree = sysm.get('tree') or list(range(len(leaves)))

            def make(node):
                if isinstance(node, int):
                    return leaves[node]
                subs = [make(n) for n in node]
                how = sysm.get('how', 'kw')
                if how in ('kw', 'mul'):
                    c = q.QuantumSystem(subSys=subs)
                elif how == 'add':
                    c = q.QuantumSystem()
                    for x in subs:
                        c.addSubSys(x)
                elif how == 'plus':
                    c = subs[0]
                    c = q.QuantumSystem()
                    for x in subs:
                        c + x  # pylint: disable=pointless-statement
                else:
                    raise KeyError(how)
                return c
            top = make(tree)
        if sysm.get('alias'):
            top.alias = sysm['alias']
        coup = []
        for k, c in enumerate(sysm.get('couplings', [])):
            if c['kind'] == 'term':
                qs = [leaves[i] for i in c['leaves']]
                if c.get('byname'):
                    qs = [x.name.name if hasattr(x.name, 'name') else str(x.name) for x in qs]
                kw = {'order': list(c['orders'])} if c.get('orders') else {}
                owner = leaves[c['leaves'][0]].superSys if c.get('at') == 'parent' else top
                o = owner.createTerm(qSystem=qs, operator=[self.op[n] for n in c['ops']], frequency=c['freq'], **kw)
            else:
                o = getattr(top, c['kind'])(c['freq'], *[leaves[i] for i in c['leaves']])
            if c.get('td'):
                o.timeDependency = TD('s%d.c%d' % (s, k), c['td'])
            coup.append(o)
        if sysm.get('initby') == 'leaves':
            for leaf, x in zip(leaves, sysm['init']):
                leaf.initialState = real_input(x)
        elif sysm.get('init') is not None:
            top.initialState = self._init_input(s)
        self.systems.append(top)
        self.leaves.append(leaves)
        self.terms.append(terms)
        self.coup.append(coup)
        diss = []
        for d in sysm.get('diss', []):
            leaf = sysm['leaves'][d['leaf']]
            o = q.dissipatorObj(system=leaves[d['leaf']], jOper=self.op[d['op']](*op_args(d['op'], leaf['dim'])),
                                jRate=d['rate'])
            if d.get('temp') is not None:
                o.temperature = d['temp']
            diss.append(o)
        self.diss.append(diss)
        self.baths[s] = []
        for b in sysm.get('baths', []):
            o = q.classes.environment.thermalBath(temperature=b['temp'], charFreq=b['bfreq'])
            for k in b['diss']:
                o.dissipator = diss[k]
            self.baths[s].append(o)

    def _copied_system(self, s, of):
        top = self.systems[of].copy()
        leaves = []

        def walk(x):
            for sub in x.subSys.values():
                walk(sub)
            if not x.subSys:
                leaves.append(x)
        walk(top)
        for i, lf in enumerate(leaves):
            self.ownalias[s, i] = [str(a) for a in lf.alias]
            alias = self.spec['systems'][s]['leaves'][i].get('alias')
            if alias:
                lf.alias = alias
        self.systems.append(top)
        self.leaves.append(leaves)
        self.terms.append([list(x.terms.values()) for x in leaves])
        self.coup.append(list(top.terms.values()) if self.spec['systems'][s]['comp'] else [])
        self.diss.append([])
        if self.spec['systems'][s].get('alias'):
            top.alias = self.spec['systems'][s]['alias']

    def _init_input(self, s, val=None):
        """What a user gives as the initial state of a system: kets of its parts, or the whole state as an array."""
        sysm = self.spec['systems'][s]
        val = sysm['init'] if val is None else val
        if sysm.get('initarr'):
            ket = model.initial_state(self.spec, s, val).reshape(-1, 1)
            return ket if sysm['initarr'] == 'dense' else csc_matrix(ket)
        return real_input(self._nest_init(sysm, val))

    @staticmethod
    def _nest_init(sysm, init=None):
        init = sysm['init'] if init is None else init
        if not sysm['comp'] or not sysm.get('tree'):
            return init

        def walk(node):
            return init[node] if isinstance(node, int) else [walk(n) for n in node]
        return walk(sysm['tree'])

    def _step(self, p, pro, st, made):
        q = self.q
        system = self.systems[pro['sys']]
        kind = st['kind']
        if kind == 'free':
            o = q.freeEvolution(superSys=system)
            if st.get('ratio', 1) != 1:
                o.ratio = st['ratio']
        elif kind in ('rot', 'xgate'):
            cls = q.SpinRotation if kind == 'rot' else q.xGate
            o = cls(system=[self.leaves[pro['sys']][i] for i in st['leaves']], angle=st['angle'])
            if kind == 'rot' or st['axis'] != 'x':
                o.rotationAxis = st['axis']
            if st.get('phase', 1) != 1:
                o.phase = st['phase']
            if st.get('impl'):
                o.implementation = st['impl']
        elif kind == 'copy':
            return made[st['of']]
        elif kind == 'ref':
            return self.steps[st['p']][st['of']]
        elif kind == 'hc':
            return made[st['of']].hc
        elif kind == 'nested':
            o = q.qProtocol(superSys=system)
            sub = []
            for x in st['steps']:
                sub.append(self._step(p, dict(pro, steps=st['steps']), x, sub))
                o.addStep(sub[-1])
            self.keep.append(sub)
            self.nested_steps[id(st)] = sub
        else:
            raise KeyError(kind)
        for k in st.get('diss', []):
            self.diss[pro['sys']][k].addToProtocol(o)
        if st.get('fixed'):
            o.fixed = True
        for up in st.get('updates', []):
            u = self._make_update(o, up)
            self.keep.append(u)
        return o

    def _make_update(self, o, up):
        for same, u in self.shared if up.get('shared') else []:
            if same == up:
                o.addUpdate(u)
                return u
        obj, attr, conv = self.target(up['path'], partial=True)
        sysarg = obj if up.get('single', True) and not up.get('also') else \
            [obj] + [self.target(p, partial=True)[0] for p in up.get('also', [])]
        kw = {'updateFunction': UpdateFn(up['fn'])} if up.get('fn') else {}
        u = o.createUpdate(system=sysarg, key=attr, value=conv(up['value']), **kw)
        if up.get('shared'):
            self.shared.append((up, u))
        return u

    def _protocol(self, p):
        q = self.q
        pro = self.spec['protocols'][p]
        system = self.systems[pro['sys']]
        self.nested_steps = getattr(self, 'nested_steps', {})
        made = []
        if pro.get('default'):
            o = system._freeEvol
        elif pro['kind'] == 'free':
            o = q.freeEvolution(superSys=system)
            if pro.get('ratio', 1) != 1:
                o.ratio = pro['ratio']
        else:
            o = q.qProtocol(superSys=system)
            how = pro.get('how', 'addStep')
            for st in pro['steps']:
                made.append(self._step(p, pro, st, made))
            if how == 'addStep':
                o.addStep(*made)
            elif how == 'steps':
                o.steps = made
            else:
                for m in made:
                    o.addSubSys(m)
            for st, m in zip(pro['steps'], made):
                if st.get('samples', 1) != 1 and st['samples'] == 2:
                    m.simSamples = st['samples']
                elif st.get('samples', 1) != 1:
                    m.simulation.samples = st['samples']
        if pro.get('alias'):
            o.alias = pro['alias']
        for k in pro.get('diss', []):
            self.diss[pro['sys']][k].addToProtocol(o)
        if pro.get('init') is not None:
            o.initialState = real_input(self._nest_init(self.spec['systems'][pro['sys']], pro['init']))
        for up in pro.get('updates', []):
            self.keep.append(self._make_update(o, up))
        self.protocols.append(o)
        self.steps.append(made)

    def _sim(self):
        q = self.q
        spec = self.spec
        sim = spec['sim']
        mode = sim.get('mode', 'explicit')
        if mode == 'explicit':
            lv = model.live(spec)
            lead = []
            for p in lv:        # systems without an explicit protocol that come first
                if not sim.get('build') or not spec['protocols'][p].get('default'):
                    break
                lead.append(self.systems[spec['protocols'][p]['sys']])
            self.sim = q.Simulation(lead if len(lead) > 1 else lead[0]) if lead and sim['build'] == 'init' else q.Simulation()
            early = sim.get('times') == 'early'
            if early:
                self._times()
            if lead and sim['build'] == 'sub':
                self.sim.subSys = lead
            elif lead and sim['build'] == 'list':
                self.sim.addQSystems(lead)
            rest = lv[len(lead):]
            while rest:
                p = rest.pop(0)
                pro = spec['protocols'][p]
                system = self.systems[pro['sys']]
                add = pro.get('add')
                if pro.get('default'):
                    self.sim.addSubSys(system)
                elif add == 'list':
                    group = [self.protocols[p]]
                    while rest and spec['protocols'][rest[0]].get('add') == 'list' and not spec['protocols'][rest[0]].get('default'):
                        group.append(self.protocols[rest.pop(0)])
                    self.sim.addProtocol(group)
                elif add == 'addProtocol' and p != lv[0]:
                    self.sim.addProtocol(self.protocols[p])
                elif add == 'addQSystems':
                    self.sim.addQSystems(system, Protocol=self.protocols[p])
                elif add == 'byname':
                    self.sim.addSubSys(str(system.name), self.protocols[p])
                else:
                    self.sim.addSubSys(system, self.protocols[p])
            if not early:
                self._times()
        else:
            system = self.systems[0]
            self.sim = system.simulation
            lv = model.live(spec)
            for p in lv:
                pro = spec['protocols'][p]
                if pro.get('default'):
                    continue
                first = p == lv[0]
                if first:
                    system.addProtocol(self.protocols[p], protocolRemove=system._freeEvol)
                else:
                    system.addProtocol(self.protocols[p])
            self._times()
        if sim.get('alias'):
            self.sim.alias = sim['alias']
        if sim.get('evol'):
            self.sim.evolFunc = None if sim['evol'] == 'none' else UserEvol()
        if sim.get('del') and mode != 'explicit' and sim.get('via') == 'sys':
            self.systems[0].simDelStates = True
        elif sim.get('del'):
            self.sim.delStates = True

    def _times(self):
        sim = self.spec['sim']
        target = self.sim if self.spec['sim'].get('via', 'sim') == 'sim' else self.systems[0]
        order = sim.get('order', ['T', 'dt'])
        names = {'T': 'totalTime', 'dt': 'stepSize', 'count': 'stepCount'}
        sysn = {'T': 'simTotalTime', 'dt': 'simStepSize', 'count': 'simStepCount'}
        for k in order:
            v = sim.get('set_' + k, sim.get(k))
            if v is None:
                continue
            if target is self.sim:
                setattr(target, names[k], v)
            else:
                setattr(target, sysn[k], v)

    def _sweep(self, sw):
        targets = [self.target(p) for p in sw['paths']]
        attr = targets[0][1]
        conv = targets[0][2]
        objs = [t[0] for t in targets]
        if sw.get('gap'):           # a property of the user's own class
            attr, kw_conv = 'gap', conv
            objs = [self.leaves[p[1]][p[3]] for p in sw['paths']]
            conv = lambda v: kw_conv(v) / 2  # noqa: E731
        if sw.get('top'):           # the frequency of a quantum system is that of its first term
            objs = [self.leaves[p[1]][p[3]] for p in sw['paths']]
        implicit = sw.get('implicit') and len(objs) == 1 and objs[0] is self.sim.superSys
        if sw.get('byname') and sw['paths'][0][0] != 'aux':
            objs = [str(x.name) for x in objs]
        kw = {'sweepList': [conv(v) for v in sw['values']]}
        rg = sw.get('range')
        if rg and sw['values'] == range_values(rg):
            kw = {'sweepMin': rg['min'], 'sweepMax': rg['max'], 'sweepStep': rg['step']}
            if rg.get('log'):
                kw['logSweep'] = True
        elif sw.get('np'):
            kw['sweepList'] = np.array(kw['sweepList'])
        if sw.get('comb'):
            kw['combinatorial'] = True
        if sw['paths'][0][0] == 'aux':
            s = self.sim.Sweep.createSweep(system=self.sim.auxObj if objs[0] is self.sim.auxObj else self.systems[0],
                                           sweepKey=attr, **kw)
            self.sweeps.append(s)
            return s
        if sw.get('style') == 'fn':
            kw['sweepFunction'] = SweepPick(kw['sweepList'])
            kw['sweepList'] = list(range(len(sw['values'])))
        # without a system, a sweep is for the system that has the simulation
        of = {} if implicit else {'system': objs if len(objs) > 1 else objs[0]}
        if sw.get('style') == 'late':
            s = self.sim.Sweep.createSweep(sweepKey=attr, **of)
            for k, v in kw.items():
                setattr(s, k, v)
        else:
            s = self.sim.Sweep.createSweep(sweepKey=attr, **of, **kw)
        self.sweeps.append(s)
        return s

    def swept(self, sw, path):
        """The object a sweep drives through a path."""
        if sw.get('top') or sw.get('gap'):
            return self.leaves[path[1]][path[3]]
        obj = self.target(path)[0]
        return self.systems[0] if isinstance(obj, dict) else obj      # a value of the auxiliary dictionary

    def _tdsweep(self, sw):
        attr = self.target(sw['paths'][0])[1]
        objs = [self.swept(sw, p) for p in sw['paths']]
        objs = objs if len(objs) > 1 else objs[0]
        if sw.get('range') and sw['values'] == range_values(sw['range']):
            s = self.sim.timeDependency.createSweep(system=objs, sweepKey=attr, sweepMin=sw['range']['min'],
                                                    sweepMax=sw['range']['max'], sweepStep=sw['range']['step'])
        elif sw['kind'] == 'list':
            s = self.sim.timeDependency.createSweep(system=objs, sweepKey=attr, sweepList=list(sw['values']))
        else:
            s = self.sim.timeDependency.createSweep(system=objs, sweepKey=attr,
                                                    sweepFunction=SweepFn('tds%d' % len(self.tdsweeps), sw['fn']))
        self.tdsweeps.append(s)

    def owner(self, name):
        if name == 'sim':
            return self.sim
        if name.startswith('pro'):
            return self.protocols[int(name[3:])]
        return self.systems[int(name[3:])]

    def _callbacks(self):
        first = True
        for c in self.spec.get('cbs', []):
            self.set_cb(c)

    def set_cb(self, c, cls=Cb):
        if c.get('look'):
            from .props.names import LookCb
            cls = LookCb
        o = self.owner(c['owner'])
        attr = {'compute': 'compute', 'pre': 'preCompute', 'post': 'postCompute'}[c['when']]
        first = c['owner'] == 'sim' and c['when'] == 'pre'
        cb = cls(c['owner'], c['when'], c.get('recs', []), first=first)
        if attr == 'compute' and c.get('via') == 'simCompute' and c['owner'] == 'sim' and \
                self.spec['sim'].get('mode') == 'sys':
            self.systems[0].simCompute = cb
        else:
            setattr(o, attr, cb)

    # ---- paths ---------------------------------------------------------------------------------------------------
    def target(self, path, partial=False):
        """(object, attribute, value converter) a spec path names."""
        key = path[-1] if path[0] != 'systems' or path[2] != 'init' else 'init'
        attr = ATTR[key] if path[0] != 'aux' else key
        conv = real_input if key == 'init' else (lambda v: v)
        if key == 'op':
            conv = lambda v: self.op[v]  # noqa: E731
        elif key == 'ops':
            conv = lambda v: [self.op[n] for n in v]  # noqa: E731
        head = path[0]
        if head == 'aux':
            return (self.sim.auxObj if self.spec['auxin'][key] == 'obj' else self.sim.auxDict), key, conv
        if head == 'sim':
            return self.sim, attr, conv
        if head == 'systems':
            s = path[1]
            if path[2] == 'leaves':
                i = path[3]
                if path[4] == 'terms':
                    return self.terms[s][i][path[5]], attr, conv
                return self.leaves[s][i], attr, conv
            if path[2] == 'diss':
                return self.diss[s][path[3]], attr, conv
            if path[2] == 'baths':
                return self.baths[s][path[3]], attr, conv
            if path[2] == 'couplings':
                return self.coup[s][path[3]], attr, conv
            if path[2] == 'init' and len(path) == 4:
                return self.leaves[s][path[3]], attr, conv
            if path[2] == 'init':
                return self.systems[s], attr, (lambda v: self._init_input(s, v))
        if head == 'protocols':
            p = path[1]
            if path[2] == 'steps':
                st = self.steps[p][path[3]]
                if path[4] == 'steps':
                    st = self.nested_steps[id(self.spec['protocols'][p]['steps'][path[3]])][path[5]]
                if path[4] == 'updates':
                    return st.updates[path[5]], 'value', conv
                if key == 'samples':
                    return st.simulation, 'samples', conv
                return st, attr, conv
            if key == 'init':
                sysm = self.spec['systems'][self.spec['protocols'][p]['sys']]
                conv = lambda v: real_input(self._nest_init(sysm, v))  # noqa: E731
            return self.protocols[p], attr, conv
        raise KeyError(path)

    def set(self, path, val, alias=False):
        obj, attr, conv = self.target(path)
        if isinstance(obj, dict):
            obj[attr] = val
            return
        if alias and path[-1] in ('freq', 'op', 'order') and path[2] == 'leaves' and path[5] == 0:
            obj = self.leaves[path[1]][path[3]]
        if alias and path[-1] == 'temp' and path[2] == 'baths' and self.spec['systems'][path[1]]['baths'][path[3]]['diss']:
            obj = self.diss[path[1]][self.spec['systems'][path[1]]['baths'][path[3]]['diss'][0]]
        setattr(obj, attr, conv(val))
