"""The engine: applies one case's operations to the real library and to the reference model, and judges what comes back.

A case is JSON; executing it is a pure function of the case and of the library's code.
"""
import copy
import gc
import os
import random

import numpy as np

from . import callbacks, edits, model
from .callbacks import dense, ham_value, obs
from .gen import range_values
from .hub import H, SimHang
from .prng import Choices, derive

TOL = 2e-8


class Violation(Exception):
    def __init__(self, cls, detail):
        super().__init__('%s: %s' % (cls, detail))
        self.cls, self.detail = cls, detail


class HarnessError(Exception):
    pass


def close(a, b, tol=TOL):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and float(np.max(np.abs(a - b), initial=0.0)) <= tol


def brief(x):
    try:
        return np.array2string(np.asarray(x), precision=5, threshold=8, separator=',').replace('\n', '')[:160]
    except Exception:  # pylint: disable=broad-except
        return str(x)[:160]


class lib:
    """Marks calls into the library, so that exceptions can be told apart from harness errors."""

    def __enter__(self):
        H.lib_depth += 1

    def __exit__(self, *a):
        H.lib_depth -= 1


def short(e):
    return '%s: %s' % (type(e).__name__, str(e)[:160])


class Outcome:
    def __init__(self):
        self.exc = None
        self.trace = []
        self.pools = []
        self.ret = None
        self.fired = {}


def calls_by_task(trace):
    """Evolution traces of a run: [(task or None, worker or None, [events])], one entry per pre-run of events."""
    out = []
    cur = []
    for e in trace:
        if e[0] == 'task':
            out.append((e[1], e[2], e[3]))
        else:
            cur.append(e)
    if cur:
        out.insert(0, (None, None, cur))
    return out


class Session:
    def __init__(self, q, spec, build=True):
        from .world import World
        self.q = q
        self.spec = copy.deepcopy(spec)
        self.snapshots = []
        self.log = []
        H.active = True
        self.sticky = None
        with lib():
            self.w = World(q, self.spec)
        self.dirty = False

    # ---- operations -----------------------------------------------------------------------------------------------
    def run(self, o):
        """Perform one run operation; never raises for what the library does, returns an Outcome."""
        out = Outcome()
        H.trace = []
        H.cb_count = 0
        H.cb_bound = o.get('bound')
        H.faults = [dict(f) for f in o.get('faults', [])]
        H.counters = {}
        H.point = -1
        H.task = None
        H.cpu = o.get('cpu', 4)
        H.policy = o.get('policy', 'random')
        H.choices = Choices(o.get('sched', 1), o.get('choices'))
        n0 = len(H.pools)
        s0 = len(H.sched)
        fired0 = dict(H.fired)
        H.alloc = None
        H.alloc_calls = 0
        for f in H.faults:
            if f['kind'] == 'alloc':
                H.alloc = f
        sim = self.w.sim
        p = o.get('p')
        caller_pool = None
        kw = {}
        if o.get('cc') is not None:
            kw['coreCount'] = o['cc']
        if p == 'pool':
            import multiprocessing
            caller_pool = multiprocessing.Pool(o.get('np', 2))
            p = caller_pool
        try:
            with lib():
                if o.get('via') == 'runSimulation' and self.spec['sim'].get('mode') == 'sys':
                    out.ret = self.w.systems[0].runSimulation(p=p, **kw)
                else:
                    out.ret = sim.run(p=p, **kw)
        except SimHang as e:
            out.exc = e
        except (Exception, KeyboardInterrupt, SystemExit) as e:  # pylint: disable=broad-except
            out.exc = e
            out.tb = e.__traceback__
            e.__traceback__ = None
        H.alloc = None
        H.lib_depth = 0
        out.pools = [x for x in H.pools[n0:] if x.owner == 'library']
        out.caller_pool = caller_pool
        out.left = [x.alive_now() for x in out.pools]
        out.by_caller_pool = len(caller_pool.handed) if caller_pool is not None else 0
        out.live = [(x, x.live()) for x in out.pools] if not isinstance(out.exc, SimHang) else []
        out.handed = [list(x.handed) for x in out.pools]
        out.caller_ok = None
        if caller_pool is not None and not isinstance(out.exc, SimHang):
            try:
                H.faults = []
                out.caller_ok = caller_pool.map(abs, [-3, 2, -1]) == [3, 2, 1]
            except Exception as e:  # pylint: disable=broad-except
                out.caller_ok = short(e)
            caller_pool.terminate()
        for x in H.pools[n0:]:
            x.reap()
        out.trace = H.trace
        H.trace = []
        H.faults = []
        out.choices = list(H.choices.log)
        out.sched = H.sched[s0:]
        out.fired = {k: v - fired0.get(k, 0) for k, v in H.fired.items() if v != fired0.get(k, 0)}
        out.parallel = bool(out.pools)
        if out.exc is None:
            dt, n = model.steps_of(self.spec['sim'])
            H.simtime += dt * n
        return out

    def reset_swept(self):
        """After a serial run the swept attributes keep the last values; put the caller's values back."""
        with lib():
            for sw in self.spec.get('sweeps', []) + self.spec.get('tdsweeps', []):
                for path in sw['paths']:
                    self.w.set(path, self.base(path))
            self._restore_time()

    def base(self, path):
        if path[-1] == 'jValue':
            return (model.get(self.spec, path[:-1])['dim'] - 1) / 2
        d = {'ratio': 1, 'phase': 1, 'order': 1}.get(path[-1])
        return model.get(self.spec, path[:-1]).get(path[-1], d)

    def _restore_time(self):
        sim = self.spec['sim']
        swept = {p[-1] for sw in self.spec.get('sweeps', []) for p in sw['paths'] if p[0] == 'sim'}
        if swept and sim.get('T') is not None:
            self.w.sim.totalTime = sim['T']
            self.w.sim.stepSize = sim['dt']

    def set(self, path, val, alias=False):
        model.put(self.spec, path, val)
        with lib():
            self.w.set(path, val, alias)

    # ---- operations as data ---------------------------------------------------------------------------------------
    def apply(self, o):
        """Perform one operation of a case; the Outcome of a run, otherwise None."""
        kind = o['op']
        if kind in ('sweepvals', 'rangevals', 'rmsweep', 'setcomb') and o['i'] >= len(self.spec.get('sweeps', [])):
            raise HarnessError('%s of a sweep that is not there' % kind)
        if kind == 'run':
            out = self.run(o)
            if not o.get('noreset'):
                self.reset_swept()
            return out
        if kind == 'set':
            self.set(o['path'], o['val'], o.get('alias', False))
        elif kind == 'sweepvals':
            sw = self.spec['sweeps'][o['i']]
            sw['values'] = o['values']
            sw.pop('range', None)
            conv = self.w.target(sw['paths'][0])[2]
            with lib():
                vals = [conv(v) / 2 if sw.get('gap') else conv(v) for v in o['values']]
                if sw.get('style') == 'fn' and hasattr(self.w.sweeps[o['i']].sweepFunction, 'values'):
                    self.w.sweeps[o['i']].sweepFunction = callbacks.SweepPick(vals)
                    vals = list(range(len(vals)))
                self.w.sweeps[o['i']].sweepList = vals
        elif kind == 'rangevals':       # the range of a sweep is changed
            sw = self.spec['sweeps'][o['i']]
            if not sw.get('range'):
                raise HarnessError('the sweep is not given by a range')
            sw['range'], sw['values'] = o['range'], range_values(o['range'])
            with lib():
                for k, v in o['range'].items():
                    setattr(self.w.sweeps[o['i']], {'min': 'sweepMin', 'max': 'sweepMax', 'step': 'sweepStep', 'log': 'logSweep'}[k], v)
        elif kind == 'setcomb':
            self.spec['sweeps'][o['i']]['comb'] = o['comb']
            with lib():
                self.w.sweeps[o['i']].combinatorial = o['comb']
        elif kind == 'rmsweep':
            with lib():
                self.w.sim.Sweep.removeSweep(self.w.sweeps.pop(o['i']))
            self.spec['sweeps'].pop(o['i'])
        elif kind == 'addsweep':
            self.spec.setdefault('sweeps', []).append(o['sweep'])
            with lib():
                self.w._sweep(o['sweep'])
        elif kind == 'cb':
            cls = o.get('cls', 'Cb')
            with lib():
                self.w.set_cb(o['c'], getattr(callbacks, cls))
            if cls == 'Cb':
                self.spec['cbs'] = [c for c in self.spec.get('cbs', [])
                                    if (c['owner'], c['when']) != (o['c']['owner'], o['c']['when'])] + [o['c']]
        elif kind == 'read':
            with lib():
                return self.read(o['what'], o.get('i', 0), o.get('j'))
        elif kind in edits.ALL or kind in edits.COMPOSE:
            if kind == 'rmsweepof':
                sw = self.spec['sweeps'][o['i']]
                path = sw['paths'][o['j']]
                o = dict(o, _obj=self.w.swept(sw, path))
            info = edits.spec_edit(self.spec, o)
            with lib():
                edits.world_edit(self, o, info)
        else:
            raise HarnessError('unknown operation ' + kind)
        return None

    def read(self, what, i, j=None):
        w = self.w
        if what == 'unitary':
            return dense2(w.protocols[i].unitary())
        if what == 'step':
            return dense2(w.steps[i][j].unitary())
        if what == 'hc':
            return dense2(w.protocols[i].hc.unitary())
        if what == 'ham':
            return dense2(w.systems[i].totalHamiltonian)
        if what == 'subham':
            return dense2(w.systems[i].subSysHamiltonian if hasattr(w.systems[i], 'subSysHamiltonian') else
                          w.systems[i].totalHamiltonian)
        if what == 'leafham':
            return dense2(w.leaves[i][j].totalHamiltonian)
        if what == 'init':
            return dense(w.systems[i].initialState)
        if what == 'proinit':
            return dense(w.protocols[i].initialState)
        if what == 'leafinit':
            return dense(w.leaves[i][j].initialState)
        if what == 'sysunit':
            return dense2(w.systems[i].unitary())
        if what == 'coupham':
            return dense2(w.coup[i][j].totalHamiltonian)
        if what == 'termham':
            return dense2(w.terms[i][j[0]][j[1]].totalHamiltonian)
        if what == 'jop':
            return dense2(w.diss[i][j].jOperMatrix)
        if what == 'dims':
            def flat(x):
                return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]
            return np.array(flat(w.systems[i].subSysDimensions) + [w.systems[i].dimension], dtype=complex)
        if what == 'times':
            return np.array(w.sim.timeList, dtype=complex)
        raise HarnessError('unknown read ' + what)

    def norm_key(self, key):
        for p in range(len(self.spec['protocols'])):
            if key == self.state_key(p):
                return 'p%d' % p
        return str(key)

    def dump(self, out=None):
        """Everything a user gets from a run, free of object identities and names."""
        res = {}
        for tag in self.tags():
            o = self.w.owner(tag)
            res[tag + '.results'] = {str(k): freeze(v) for k, v in o.resultsDict.items()}
            res[tag + '.states'] = {self.norm_key(k): freeze(v) for k, v in o.qRes.states.items()}
            res[tag + '.calculated'] = {str(k): freeze(v) for k, v in o.qRes.calculated.items()}
        if out is not None:
            res['returned'] = freeze(out.ret)
        return res

    def tags(self):
        return ['sim'] + ['pro%d' % i for i in range(len(self.w.protocols))] + \
            ['sys%d' % i for i in range(len(self.w.systems))]

    def params(self):
        """Current values of every scalar parameter of the caller's own objects."""
        out = {}
        for path in scalar_paths(self.spec):
            obj, attr, _ = self.w.target(path)
            try:
                v = getattr(obj, attr)
            except Exception as e:  # pylint: disable=broad-except
                v = short(e)
            out[str(path)] = v
        return out

    # ---- judging a completed run ------------------------------------------------------------------------------------
    def expect(self):
        return model.run(self.spec)

    def check_ok(self, out, what='run'):
        if isinstance(out.exc, SimHang):
            raise Violation('hang', '%s never ends: %s' % (what, out.exc))
        if out.exc is not None:
            raise Violation('unexpected-error', '%s raised %s' % (what, short(out.exc)))

    def state_key(self, p):
        pro = self.w.protocols[p]
        spec = self.spec['protocols'][p]
        if spec.get('default'):
            return str(self.w.systems[spec['sys']].name) + 'Results'
        return str(pro.name) + 'Results'

    @staticmethod
    def pick(node, idx, leafn):
        for i in idx:
            node = node[i]
        if leafn == 1 and not isinstance(node, list):
            node = [node]
        return node

    def check_shape(self, node, shape, what):
        if not shape:
            return
        if not isinstance(node, (list, np.ndarray)) or len(node) != shape[0]:
            raise Violation('shape', '%s: %s entries where the sweep has %d' % (
                what, len(node) if hasattr(node, '__len__') else type(node).__name__, shape[0]))
        for sub in node:
            self.check_shape(sub, shape[1:], what)

    def check_states(self, shape, evs, what='run', keep=None):
        if self.spec['sim'].get('del'):
            return
        sim = self.w.sim
        lv = model.live(self.spec)
        for p, pro in enumerate(self.spec['protocols']):
            if keep is not None and not keep[p]:
                continue
            key = self.state_key(p)
            if p not in lv:
                if len(sim.states.get(key, ())) > 0:
                    raise Violation('stale', '%s: simulation.states has %d entries for protocol %d, which was removed' % (
                        what, len(sim.states[key]), p))
                continue
            got = sim.states[key]
            owner = self.w.systems[pro['sys']] if pro.get('default') else self.w.protocols[p]
            got2 = owner.qRes.states[key]
            for name, g in (('simulation.states', got), ('own states', got2)):
                lab = '%s: %s[%s]' % (what, name, 'protocol %d' % p)
                self.check_shape(g, shape, lab)
                for ev in evs:
                    lst = self.pick(g, ev['idx'], ev['n'] + 1)
                    exp = ev['states'][p]
                    if not isinstance(lst, list) or len(lst) != len(exp):
                        raise Violation('count', '%s at %s: %s states, expected %d' % (
                            lab, ev['idx'], len(lst) if hasattr(lst, '__len__') else '?', len(exp)))
                    for k, (a, b) in enumerate(zip(lst, exp)):
                        if not close(dense(a), b):
                            raise Violation('state', '%s at point %s step %d: got %s expected %s' % (
                                lab, ev['idx'], k, brief(dense(a)), brief(b)))

    def expected_records(self, c, ev):
        """What callback c records during one evolution: {key: (kind, value or list)}."""
        out = {}
        own = c['owner']
        spec = self.spec
        n = ev['n']
        for rec in c['recs']:
            kind, key, w = rec[:3]
            if kind == 'aux':
                val = w * model.at_point(spec, ev['sets'])['aux'][rec[3]]
                out[key] = ('list', [val] * (n + 1 if c['when'] == 'compute' else 1))
                continue
            if kind in ('ham', 'cond'):
                s = self._ham_system(own)
                ks = range(n + 1) if c['when'] == 'compute' else [0 if c['when'] == 'pre' else n]
                vals = [ham_value(ev['hams'][k][s], w) for k in ks]
                out[key] = ('list', vals if kind == 'ham' else [v for v in vals if v > rec[3]])
                continue
            if kind == 'samples':
                out[key] = ('state', ev['samples'][int(own[3:])])
                continue
            if kind == 'state':
                out[key] = ('state', [self._given(own, ev, k) for k in range(n + 1)])
                continue
            if c['when'] == 'compute':
                vals = []
                for k in range(n + 1):
                    vals.append(self._obs_at(own, ev, k, w))
            else:
                k = 0 if c['when'] == 'pre' else n
                if own == 'sim':
                    vals = [sum((i + 1) * obs(w, st[k]) for i, st in enumerate(self.states_in(ev)))]
                elif own.startswith('pro'):
                    vals = [obs(w, ev['states'][int(own[3:])][k])]
                else:
                    pt = model.at_point(spec, ev['sets'])
                    vals = [float(w * int(np.prod(model.dims(pt['systems'][int(own[3:])]))))]
            if kind == 'avg':
                out[key] = ('avg', float(np.mean(vals)))
            elif kind == 'pair':
                arrs = [np.array([v, w, 1j * v]) if w > 3 else np.array([v, w]) for v in vals]
                out[key] = ('list', arrs)
                out[key + '_mean'] = ('avg', np.mean(arrs, axis=0))
            elif kind == 'array':
                out[key] = ('list', [np.array([v, w]) for v in vals])
            elif kind == 'calc':
                out[key] = ('calc', vals)
            else:
                out[key] = ('list', vals)
        return out

    def _ham_system(self, own):
        """The system whose Hamiltonian an owner's callbacks look at."""
        if own == 'sim':
            return self.spec['protocols'][model.live(self.spec)[0]]['sys']
        if own.startswith('pro'):
            return self.spec['protocols'][int(own[3:])]['sys']
        return int(own[3:])

    def _given(self, own, ev, k):
        """The states handed to a compute callback of an owner at instant k."""
        if own == 'sim':
            return [st[k] for st in self.states_in(ev)]
        if own.startswith('pro'):
            return [ev['states'][int(own[3:])][k]]
        return [ev['states'][model.first_live(self.spec, int(own[3:]))][k]]

    def _obs_at(self, own, ev, k, w):
        if own == 'sim':
            return sum((i + 1) * obs(w, st[k]) for i, st in enumerate(self.states_in(ev)))
        if own.startswith('pro'):
            return obs(w, ev['states'][int(own[3:])][k])
        s = int(own[3:])
        return obs(w, ev['states'][model.first_live(self.spec, s)][k])

    def states_in(self, ev):
        """The states of the protocols in the simulation, in its order."""
        return [ev['states'][p] for p in model.live(self.spec)]

    def present(self, own):
        """Whether an owner of callbacks takes part in runs."""
        if own == 'sim':
            return True
        if own.startswith('pro'):
            return int(own[3:]) in model.live(self.spec)
        return model.first_live(self.spec, int(own[3:])) is not None

    def check_results(self, shape, evs, what='run', kinds=None):
        calc = {}
        for c in self.spec.get('cbs', []):
            owner = self.w.owner(c['owner'])
            if not self.present(c['owner']):
                continue
            if kinds is not None:
                c = dict(c, recs=[rec for rec in c['recs'] if rec[0] in kinds])
            recs = [self.expected_records(c, ev) for ev in evs]
            for ev, exp in zip(evs, recs):
                for key, (kind, val) in exp.items():
                    if kind == 'list' and not any(e[key][1] for e in recs):
                        if key in owner.resultsDict:
                            raise Violation('result', '%s: %s has results under %r, but recorded none' % (
                                what, c['owner'], key))
                        continue
                    if kind == 'calc':
                        calc.setdefault((c['owner'], key), []).extend(val)
                        continue
                    got = owner.resultsDict
                    if key not in got:
                        raise Violation('missing', '%s: %s recorded nothing under %r' % (what, c['owner'], key))
                    lab = '%s: results[%s] of %s' % (what, key, c['owner'])
                    self.check_shape(got[key], shape, lab)
                    node = got[key]
                    for i in ev['idx']:
                        node = node[i]
                    if kind == 'avg':
                        if isinstance(node, (list, tuple)) or not close(node, val):
                            raise Violation('result', '%s at %s: average %s expected %s' % (
                                lab, ev['idx'], brief(node), val))
                        continue
                    if len(val) == 1 and not isinstance(node, list):
                        node = [node]
                    if not isinstance(node, list) or len(node) != len(val):
                        raise Violation('count', '%s at %s: %s entries expected %d' % (
                            lab, ev['idx'], len(node) if hasattr(node, '__len__') else '?', len(val)))
                    for k, (a, b) in enumerate(zip(node, val)):
                        if kind == 'state':
                            a = [dense(x) for x in (a if isinstance(a, list) else [a])]
                            if len(a) != len(b) or not all(close(x, y) for x, y in zip(a, b)):
                                raise Violation('result', '%s at %s entry %d: recorded %s, was given %s' % (
                                    lab, ev['idx'], k, ' '.join(map(brief, a)), ' '.join(map(brief, b))))
                            continue
                        if not close(a, b):
                            raise Violation('result', '%s at %s entry %d: got %s expected %s' % (
                                lab, ev['idx'], k, brief(a), brief(b)))
        for (own, key), val in calc.items():
            got = self.w.owner(own).qRes.calculated
            lst = list(got[key]) if key in got else []
            if not close(lst, val):
                raise Violation('calculated', '%s: calculated[%s] of %s is %s, expected %s' % (
                    what, key, own, brief(lst), brief(val)))

    def check_run(self, out, what='run'):
        self.check_ok(out, what)
        shape, evs = self.expect()
        self.check_states(shape, evs, what)
        self.check_results(shape, evs, what)
        return shape, evs

    # ---- traces -------------------------------------------------------------------------------------------------
    def evolutions(self, out):
        """Per evolution executed: the list of its events.  Evolutions are delimited by the simulation's pre callback."""
        res = []
        for task, worker, evs in calls_by_task(out.trace):
            cur = None
            lead = []
            for e in evs:
                if e[0] == 'cb' and e[1] == 'sim.pre':
                    cur = []
                    res.append((task, worker, cur))
                    if lead:
                        cur.extend(('lead',) + x for x in lead)
                        lead = []
                if cur is None:
                    lead.append(e)
                else:
                    cur.append(e)
        return res

    def expected_events(self, ev):
        """Callback events of one evolution in order: (tag, [vectors] or None)."""
        spec = self.spec
        have = {(c['owner'], c['when']) for c in spec.get('cbs', [])}
        order = ['sim'] + ['pro%d' % p for p in model.live(spec)]
        syss = []
        for pro in [spec['protocols'][p] for p in model.live(spec)]:
            if 'sys%d' % pro['sys'] not in syss:
                syss.append('sys%d' % pro['sys'])
        order += syss
        out = []

        def block(when, k):
            for o in order:
                if (o, when) not in have:
                    continue
                if k is None:
                    v = None
                elif o == 'sim':
                    v = [st[k] for st in self.states_in(ev)]
                elif o.startswith('pro'):
                    v = [ev['states'][int(o[3:])][k]]
                else:
                    v = [ev['states'][model.first_live(spec, int(o[3:]))][k]]
                out.append((o + '.' + when, v))
        block('pre', None)
        for k in range(ev['n'] + 1):
            block('compute', k)
        block('post', None)
        return out

    def match_events(self, events, ev):
        """None if the callback events are exactly those of evolution ev, else a description of the first difference."""
        got = [(e[1], e[2]) for e in events if e[0] == 'cb']
        exp = self.expected_events(ev)
        for i, ((gt, gv), (et, evv)) in enumerate(zip(got, exp)):
            if gt != et:
                return 'event %d is %s, expected %s' % (i, gt, et)
            if (gv is None) != (evv is None) or (gv is not None and len(gv) != len(evv)):
                return 'event %d (%s) received %s states, expected %s' % (
                    i, gt, None if gv is None else len(gv), None if evv is None else len(evv))
            if gv is not None:
                for a, b in zip(gv, evv):
                    if not close(a, b):
                        return 'event %d (%s) received state %s, expected %s' % (i, gt, brief(a), brief(b))
        if len(got) != len(exp):
            return '%d callback events, expected %d (first extra or missing: %s)' % (
                len(got), len(exp), (got + exp)[min(len(got), len(exp))][0] if len(got) > len(exp)
                else exp[len(got)][0])
        return None

    def check_trace(self, out, evs, what='run', prefer=None):
        """Every sweep point was evolved exactly once with exactly its callbacks; returns [(events, ev)]."""
        if not any(c['owner'] == 'sim' and c['when'] == 'pre' for c in self.spec.get('cbs', [])):
            return []
        done = self.evolutions(out)
        if len(done) != len(evs):
            raise Violation('evolutions', '%s: %d evolutions were executed for %d sweep points' % (
                what, len(done), len(evs)))
        left = list(evs)
        pairs = []
        if not out.parallel:
            for i, ((_, _, events), ev) in enumerate(zip(done, evs)):
                msg = self.match_events(events, ev)
                if msg:
                    raise Violation('events', '%s, point %s: %s' % (what, ev['idx'], msg))
                pairs.append((events, ev))
            return pairs
        for task, worker, events in done:
            best = None
            fits = []
            for ev in left:
                msg = self.match_events(events, ev)
                if msg is None:
                    fits.append(ev)
                best = best or msg
            if fits:
                # points can have the same states and differ in their time steps or in unused parameters only
                prefer = prefer or self.times_wrong
                ev = next((x for x in fits if prefer(events, x) is None), fits[0])
                left = [x for x in left if x is not ev]
                pairs.append((events, ev))
            else:
                raise Violation('events', '%s, task %s on worker %s matches no sweep point still open: %s' % (
                    what, task, worker, best))
        return pairs

    def check_times(self, pairs, what='run'):
        """Between the computes of instants k-1 and k, everything time dependent is evaluated, and only at time k*dt."""
        for events, ev in pairs:
            msg = self.times_wrong(events, ev)
            if msg:
                raise Violation('time', '%s, point %s: %s' % (what, ev['idx'], msg))

    def times_wrong(self, events, ev):
        tags = self.td_tags()
        if not any(c['owner'] == 'sim' and c['when'] == 'compute' for c in self.spec.get('cbs', [])):
            return None
        k = 0
        seen = set()
        ended = False
        for e in events:
            if e[0] == 'lead':
                e = e[1:]
            if e[0] == 'cb' and e[1] == 'sim.compute':
                if k > 0 and tags - seen:
                    return 'step %d never evaluated the time dependence of %s' % (k, sorted(tags - seen))
                k += 1
                seen = set()
            elif e[0] == 'cb' and e[1].endswith('.post'):
                ended = True
            elif e[0] == 'td' and not ended and k <= ev['n']:
                exp = k * ev['dt']
                if e[2] is None or abs(e[2] - exp) > 1e-9 * max(1.0, abs(exp)):
                    return 'during %s the time seen by %s is %s, expected %s' % (
                        'step %d' % k if k else 'the preparation', e[1], e[2], exp)
                seen.add(e[1])
        return None

    def td_tags(self):
        """Time-dependent terms every step of every protocol depends on (those of evolving systems)."""
        out = set()
        used = {p['sys'] for p in [self.spec['protocols'][k] for k in model.live(self.spec)] if self.needs_h(p)}
        for s in used:
            sysm = self.spec['systems'][s]
            for i, leaf in enumerate(sysm['leaves']):
                for j, t in enumerate(leaf['terms']):
                    if t.get('td'):
                        out.add('s%d.l%d.t%d' % (s, i, j))
            for k, c in enumerate(sysm.get('couplings', [])):
                if c.get('td'):
                    out.add('s%d.c%d' % (s, k))
        return out

    @staticmethod
    def needs_h(pro):
        """Whether evolving this protocol depends on its Hamiltonian at each step."""
        if pro['kind'] == 'free':
            return not pro.get('fixed')

        def walk(steps):
            return any(st['kind'] == 'free' and not st.get('fixed') or st['kind'] == 'nested' and not st.get('fixed') and walk(st['steps'])
                       for st in steps)
        return walk(pro['steps'])

    # ---- snapshots ------------------------------------------------------------------------------------------------
    def hand_out(self, what):
        """Remember everything the user can hold on to after a run, with a private copy of its contents."""
        held = []
        for tag in self.tags():
            o = self.w.owner(tag)
            held.append(('%s.resultsDict' % tag, o.resultsDict))
            held.append(('%s.states' % tag, o.qRes.states))
            held.append(('%s.calculated' % tag, o.qRes.calculated))
        out = []
        for lab, obj in held:
            for key, val in list(obj.items()):
                out.append((what + ' ' + lab + '[%s]' % key, val, freeze(val)))
        self.snapshots.append(out)

    def check_snapshots(self, after):
        for snap in self.snapshots:
            for lab, ref, frozen in snap:
                msg = differs(freeze(ref), frozen)
                if msg:
                    raise Violation('handed-out', '%s changed after %s: %s' % (lab, after, msg))


def dense2(x):
    if hasattr(x, 'toarray'):
        x = x.toarray()
    return np.array(x, dtype=complex)


def scalar_paths(spec):
    out = []
    for s, sysm in enumerate(spec['systems']):
        for i, leaf in enumerate(sysm['leaves']):
            out.append(['systems', s, 'leaves', i, 'dim'])
            for j, t in enumerate(leaf['terms']):
                if not t.get('td'):
                    out.append(['systems', s, 'leaves', i, 'terms', j, 'freq'])
                out.append(['systems', s, 'leaves', i, 'terms', j, 'order'])
        for k, c in enumerate(sysm.get('couplings', [])):
            if not c.get('td') and c['kind'] == 'term':
                out.append(['systems', s, 'couplings', k, 'freq'])
        for k, _ in enumerate(sysm.get('diss', [])):
            out.append(['systems', s, 'diss', k, 'rate'])
    for p, pro in enumerate(spec['protocols']):
        for k, st in enumerate(pro.get('steps') or []):
            if st['kind'] == 'free':
                out.append(['protocols', p, 'steps', k, 'ratio'])
            if st['kind'] in ('rot', 'xgate'):
                out.append(['protocols', p, 'steps', k, 'angle'])
                out.append(['protocols', p, 'steps', k, 'phase'])
    out += [['sim', 'T'], ['sim', 'dt'], ['sim', 'count']]
    return out


def same(a, b, tol=1e-9, path=''):
    """None if two frozen structures agree to tolerance, else where they differ (single-entry lists equal their entry)."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: keys %s vs %s' % (path, sorted(a), sorted(b))
        for k in a:
            m = same(a[k], b[k], tol, '%s[%s]' % (path, k))
            if m:
                return m
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d entries vs %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            m = same(x, y, tol, '%s[%d]' % (path, i))
            if m:
                return m
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        return None if close(a[1], b[1], tol) else '%s: %s vs %s' % (path, brief(a[1]), brief(b[1]))
    if isinstance(a, (int, float, complex, np.number)) and isinstance(b, (int, float, complex, np.number)):
        return None if abs(a - b) <= tol * max(1.0, abs(b)) else '%s: %s vs %s' % (path, brief(a), brief(b))
    if type(a) is not type(b):
        return '%s: %s vs %s' % (path, type(a).__name__, type(b).__name__)
    return None if a == b else '%s: %s vs %s' % (path, brief(a), brief(b))


def unwrap(x):
    while isinstance(x, list) and len(x) == 1:
        x = x[0]
    return x


def freeze(x):
    if isinstance(x, dict):
        return {str(k): freeze(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [freeze(v) for v in x]
    if hasattr(x, 'toarray') or isinstance(x, np.ndarray):
        return ('arr', dense(x))
    return x


def differs(a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return 'length %d, was %d' % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            m = differs(x, y)
            if m:
                return '[%d] %s' % (i, m)
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in b:
            if k not in a:
                return 'key %s gone' % k
            m = differs(a[k], b[k])
            if m:
                return '[%s] %s' % (k, m)
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        return None if a[1].shape == b[1].shape and np.array_equal(a[1], b[1]) else \
            '%s, was %s' % (brief(a[1]), brief(b[1]))
    if type(a) is not type(b):
        return '%s, was %s' % (type(a).__name__, type(b).__name__)
    try:
        return None if a == b else '%s, was %s' % (brief(a), brief(b))
    except Exception:  # pylint: disable=broad-except
        return None
