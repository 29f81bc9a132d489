"""User code handed to the library: picklable callables that record what they see and can be told to fail."""
import math

import numpy as np

from .hub import H, SimHang


def dense(x):
    if x is None:
        return None
    if hasattr(x, 'toarray'):
        x = x.toarray()
    x = np.array(x, dtype=complex)
    if x.ndim == 2 and 1 in x.shape and x.shape[0] != x.shape[1]:
        return x.reshape(-1)
    if x.shape == (1, 1):
        return x.reshape(-1)
    return x


def obs(w, v):
    """A real observable that tells states apart."""
    if v.ndim == 1:
        pops = np.abs(v) ** 2
        coh = (v[0] * v[-1].conjugate()).real
    else:
        pops = np.diag(v).real
        coh = v[0, -1].real
    return float(np.dot(np.cos(w * (np.arange(len(pops)) + 1)), pops) + 0.5 * math.sin(w) * coh)


EXC = {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
       'RuntimeError': RuntimeError, 'SystemExit': SystemExit, 'StopIteration': StopIteration, 'OSError': OSError,
       'IndexError': IndexError, 'AttributeError': AttributeError}


class CustomError(Exception):
    """A user exception."""


EXC['CustomError'] = CustomError


def maybe_fail(site):
    """Raise if an armed fault names this call: (site, point, k-th call at that site within the point)."""
    if not H.faults:
        return
    key = (site, H.point, H.task)
    n = H.counters[key] = H.counters.get(key, 0) + 1
    for f in H.faults:
        if f['kind'] != 'cb_raise' or f.get('used') or f['site'] != site or f['k'] != n:
            continue
        where = H.task if H.in_worker else H.point
        if f['point'] != where:
            continue
        f['used'] = True
        H.fire('cb_raise_' + f['exc'])
        raise EXC[f['exc']]('injected in ' + site)


class Cb:
    """compute / preCompute / postCompute callback."""

    def __init__(self, owner, when, recs=(), trace=True, first=False, keep=False, poke=False):
        self.owner, self.when, self.recs, self.trace, self.first = owner, when, list(recs), trace, first
        self.poke = poke

    @property
    def tag(self):
        return '%s.%s' % (self.owner, self.when)

    def __call__(self, obj, states=None):
        if self.first:
            H.point += 1
        if states is None:
            vals = None
        elif isinstance(states, list):
            vals = [dense(s) for s in states]
        else:
            vals = [dense(states)]
        if self.trace:
            H.ev('cb', self.tag, vals)
        if self.when == 'compute' and self.owner == 'sim':
            H.steps += 1
        H.cb_count += 1
        if H.cb_bound is not None and H.cb_count > H.cb_bound:
            raise SimHang('%d callbacks were executed in a run that needs at most a tenth of that' % H.cb_count)
        maybe_fail(self.tag)
        for r in self.recs:
            kind, key, w = r[0], r[1], r[2]
            if kind == 'ham':           # a property of the Hamiltonian at this point of the sweep
                obj.qRes.singleResult = [key, ham_obs(obj, self.owner, w)]
                continue
            if kind == 'aux':           # the value of an auxiliary parameter at this point of the sweep
                val = obj.auxDict[r[3]] if r[4] == 'dict' else getattr(obj.auxObj, r[3])
                obj.qRes.singleResult = [key, w * val]
                continue
            if kind == 'cond':          # recorded at some points of the sweep (or instants) only
                val = ham_obs(obj, self.owner, w)
                if val > r[3]:
                    obj.qRes.singleResult = [key, val]
                continue
            if kind == 'samples':       # the list of the states after the steps of the protocol, as the library keeps it
                obj.qRes.singleResult = [key, obj.sampleStates]
                continue
            if kind == 'calc':
                if vals is None:
                    val = final_obs(obj, self.owner, w)
                else:
                    val = sum((i + 1) * obs(w, v) for i, v in enumerate(vals))
                obj.qRes.calculated = (key, val)
                continue
            if vals is None:
                val = final_obs(obj, self.owner, w)
            else:
                val = sum((i + 1) * obs(w, v) for i, v in enumerate(vals))
            if kind == 'single':
                obj.qRes.singleResult = [key, val]
            elif kind == 'method':
                obj.qRes.resultsMethod(key, val)
            elif kind == 'avg':
                obj.qRes.resAverage = [key, val]
            elif kind == 'pair':        # the same array is recorded and averaged
                val = np.array([val, w, 1j * val]) if w > 3 else np.array([val, w])
                if r[3] == 'avg':
                    obj.qRes.resAverage = (key + '_mean', val)
                obj.qRes.singleResult = (key, val)
                if r[3] != 'avg':
                    obj.qRes.resAverage = (key + '_mean', val)
            elif kind == 'array':
                obj.qRes.singleResult = [key, np.array([val, w])]
            elif kind == 'state':
                obj.qRes.singleResult = [key, states]          # the very object the library handed over


def final_obs(obj, owner, w):
    if owner == 'sim':
        pros = list(obj.subSys.keys())
        return float(sum((i + 1) * obs(w, dense(p.currentState)) for i, p in enumerate(pros)))
    if owner.startswith('pro'):
        return obs(w, dense(obj.currentState))
    return float(w * obj.dimension)


def ham_obs(obj, owner, w):
    if owner == 'sim':
        obj = list(obj.subSys.values())[0]
    elif owner.startswith('pro'):
        obj = obj.superSys
    h = dense(obj.totalHamiltonian)
    return ham_value(h, w)


def ham_value(h, w):
    h = h.reshape(-1)
    return float(np.dot(np.cos(w * (np.arange(len(h)) + 1)), h.real) + np.dot(np.sin(w * (np.arange(len(h)) + 1)), h.imag))


class UserEvol:
    """The evolution method of a user: the default one, through a function of their own."""

    def __call__(self, sim):
        from quanguru.classes.modularSweep import timeEvolBase
        maybe_fail('evol')
        timeEvolBase(sim)


class TD:
    """timeDependency of a Hamiltonian term: frequency = a + b cos(w t + p)."""

    def __init__(self, tag, td):
        self.tag, self.td = tag, td

    def __call__(self, term, time):
        H.ev('td', self.tag, None if time is None else float(time))
        maybe_fail('td')
        term.frequency = self.td['a'] + self.td['b'] * math.cos(self.td['w'] * time + self.td.get('p', 0.0))


class SweepFn:
    """Function-valued time-dependency sweep."""

    def __init__(self, tag, fn):
        self.tag, self.fn = tag, fn

    def __call__(self, sweep):
        sim = sweep.superSys.superSys
        t = (sweep.index + 1) * sim.stepSize
        H.ev('tds', self.tag, float(sweep.index))
        for sys in sweep.subSys.values():
            setattr(sys, sweep.sweepKey, self.fn['a'] + self.fn['b'] * math.cos(self.fn['w'] * t + self.fn.get('p', 0)))


class UpdateFn:
    """An update function of the user: a multiple of the value of the update, for every system of it."""

    def __init__(self, k):
        self.k = k

    def __call__(self, update):
        for system in update.subSys.values():
            setattr(system, update.key, self.k * update.value)


class SweepPick:
    """A user's own sweep function: picks the values from its own table by the index of the sweep."""

    def __init__(self, values, aux=False):
        self.values, self.aux = values, aux

    def __call__(self, sweep):
        if self.aux:
            sweep.auxDict[sweep.sweepKey] = self.values[sweep.index]
            return
        for sys in sweep.subSys.values():
            setattr(sys, sweep.sweepKey, self.values[sweep.index])


class Unpicklable(Cb):
    def __reduce__(self):
        raise TypeError('injected: cannot pickle this callback')
