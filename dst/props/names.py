"""C09: names and aliases over histories of creation, aliasing, copying, deletion and runs, in the parent and in workers."""
import copy
import gc
import json
import os
import subprocess
import sys
import weakref

from .. import gen as G
from .. import model
from ..callbacks import Cb
from ..hub import H
from ..ref import RefError, fresh_hub, is_lib
from ..session import Session, Violation, lib, scalar_paths, short
from .runs import _q, features, npoints_of, param_edit, parallel_op

CLASSES = ['Qubit', 'Cavity', 'Spin', 'QuantumSystem', 'qBase', 'qBase', 'named', 'qProtocol', 'Simulation', 'SpinRotation',
           'xGate', 'thermalBath', 'Sweep', 'QubitOld', 'CavityOld', 'SpinOld', 'freeEvolution', 'QTerm']
STATEFUL = ('Qubit', 'Cavity', 'Spin', 'QuantumSystem', 'QubitOld', 'CavityOld', 'SpinOld')
LABEL = {'Qubit': 'Qubit', 'qBase': 'qBase', 'Cavity': 'Cavity', 'Simulation': 'Simulation', 'named': 'named',
         'QTerm': 'QTerm', 'Sweep': 'Sweep', 'Spin': 'Spin', 'qResults': '_qResults', 'QTerm_': '_QTerm',
         'freeEvolution': 'freeEvolution'}


def walk(sim):
    """Every object that takes part in a simulation, found by following references only."""
    seen = {}
    todo = [sim]
    while todo:
        o = todo.pop()
        if id(o) in seen or not hasattr(o, 'getByNameOrAlias'):
            continue
        seen[id(o)] = o
        for attr in ('subSys', 'terms', 'steps'):
            try:
                d = getattr(o, attr)
            except Exception:  # pylint: disable=broad-except
                continue
            if isinstance(d, dict):
                todo += list(d.values())
                todo += [k for k in dict.keys(d) if hasattr(k, 'getByNameOrAlias')]
        for attr in ('superSys', 'Sweep', 'timeDependency', 'qSystem', 'qRes', 'system', 'jOper'):
            try:
                x = getattr(o, attr)
            except Exception:  # pylint: disable=broad-except
                continue
            todo += list(x) if isinstance(x, (list, tuple)) else [x]
    return list(seen.values())


class LookCb(Cb):
    """A callback that looks every known object up, wherever it happens to run."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.table, self.values, self.sim = [], [], None

    def __call__(self, obj, states=None):
        super().__call__(obj, states)
        if self.table is None:
            return
        sim = obj if self.owner == 'sim' else obj.getByNameOrAlias(self.sim)
        part = {}
        for o in walk(sim):
            part.setdefault(str(o.name), []).append(o)
        bad = []
        for lab, cls, names in self.table:
            for nm in names:
                try:
                    got = obj.getByNameOrAlias(nm)
                except Exception as e:  # pylint: disable=broad-except
                    bad.append('%s (%s): looking %r up raises %s' % (lab, names[0], nm, short(e)))
                    continue
                if got is None or str(got.name) != names[0] or type(got).__name__ != cls:
                    bad.append('%s (%s): looking %r up gives %s' % (lab, names[0], nm, got))
                elif cls == 'UserClass' and getattr(got, 'note', None) != names[0]:
                    bad.append('%s (%s): looking %r up gives an object that lost its attributes' % (lab, names[0], nm))
                elif names[0] in part and not any(got is x for x in part[names[0]]):
                    bad.append('%s (%s): looking %r up gives a copy that does not take part in the running simulation' % (
                        lab, names[0], nm))
        for nm, o in part.items():
            if len(o) > 1:
                bad.append('%d objects of the running simulation are called %s' % (len(o), nm))
        if self.owner != 'sim' and not any(obj is x for x in part.get(str(obj.name), [])):
            bad.append('the simulation found by name is not the running one')
        vals = []
        for i, (nm, attr, _) in enumerate(self.values):
            try:
                vals.append((i, getattr(obj.getByNameOrAlias(nm), attr)))
            except Exception as e:  # pylint: disable=broad-except
                bad.append('reading %s of %r raises %s' % (attr, nm, short(e)))
        H.ev('look', self.tag, bad[:3], vals)
        H.probe('lookups', len(self.table))


def user_class():
    """A class of the user's own, without a label and slots of its own."""
    if 'UserClass' not in globals():
        cls = type('UserClass', (_q().classes.base.qBase,), {'__module__': __name__, '__qualname__': 'UserClass'})
        globals()['UserClass'] = cls
    return globals()['UserClass']


def strs(x):
    return [x] if not isinstance(x, (list, tuple)) else list(x)


class Book:
    """The reference table: which object every name and alias stands for."""

    def __init__(self, q, case):
        self.q, self.case = q, case
        self.s = Session(q, case['spec'])
        self.rows = []       # [label, object or None, weakref, name, aliases]
        self.extras = []
        self.dead = []
        self.world_rows()

    def make(self, cls, **kw):
        q = self.q
        if cls == 'Sweep':
            return q.classes.QSweep.Sweep(**kw)
        if cls in ('named', 'qBase'):
            return getattr(q.classes.base, cls)(**kw)
        if cls == 'thermalBath':
            return q.classes.environment.thermalBath(**kw)
        if cls in ('QubitOld', 'CavityOld', 'SpinOld'):
            return getattr(q.classes.QSys, cls)(**kw)
        if cls == 'QTerm':
            return q.classes.QTerms.QTerm(**kw)
        return getattr(q, cls)(**kw)

    def row(self, lab, obj, aliases):
        for r in self.rows:
            if r[1] is obj:
                return r
        r = [lab, obj, weakref.ref(obj), str(obj.name), list(aliases)]
        self.rows.append(r)
        return r

    def world_rows(self):
        w, spec = self.s.w, self.case['spec']
        self.row('sim', w.sim, strs(spec['sim'].get('alias', [])))
        for s, sysm in enumerate(spec['systems']):
            if sysm['comp']:
                self.row('system %d' % s, w.systems[s], strs(sysm.get('alias', [])))
            for i, leaf in enumerate(sysm['leaves']):
                al = w.ownalias.get((s, i), []) + strs(leaf.get('alias', []))
                if not sysm['comp']:
                    al += strs(sysm.get('alias', []))
                self.row('leaf %d.%d' % (s, i), w.leaves[s][i], al)
                for j, t in enumerate(w.terms[s][i]):
                    self.row('term %d.%d.%d' % (s, i, j), t, list(t.alias))
            for k, c in enumerate(w.coup[s]):
                self.row('coupling %d.%d' % (s, k), c, list(c.alias))
            for k, d in enumerate(w.diss[s]):
                self.row('dissipator %d.%d' % (s, k), d, [])
        for p, pro in enumerate(spec['protocols']):
            self.row('protocol %d' % p, w.protocols[p], strs(pro.get('alias', [])))
            for k, st in enumerate(w.steps[p]):
                self.row('step %d.%d' % (p, k), st, list(st.alias))
        for k, sw in enumerate(w.sweeps):
            self.row('sweep %d' % k, sw, [])

    # ---- checks -------------------------------------------------------------------------------------------------
    def check(self, n, what, ctx):
        names = {}
        for lab, obj, _, name, aliases in self.rows:
            if str(obj.name) != name:
                raise Violation('name-changed', 'after operation %d (%s): %s was called %s and is now called %s' % (
                    n, what, lab, name, obj.name))
            for x in [name] + aliases:
                if x in names and names[x] is not obj:
                    raise Violation('not-unique', 'after operation %d (%s): two objects share the name %r' % (n, what, x))
                names[x] = obj
            got = list(obj.alias)
            if sorted(map(str, set(got))) != sorted(map(str, set(aliases))):
                raise Violation('aliases', 'after operation %d (%s): %s has the aliases %s, expected %s' % (
                    n, what, lab, got, aliases))
        lookers = [self.rows[n % len(self.rows)][1], self.rows[(7 * n + 3) % len(self.rows)][1]]
        for lab, obj, _, name, aliases in self.rows:
            for k, x in enumerate([name] + aliases):
                try:
                    got = lookers[k % 2].getByNameOrAlias(x)
                except Exception as e:  # pylint: disable=broad-except
                    raise Violation('lookup', 'after operation %d (%s): looking %r (%s) up raises %s' % (
                        n, what, x, lab, short(e))) from None
                if got is not obj:
                    raise Violation('lookup', 'after operation %d (%s): looking %r up gives %s, not the object itself (%s)' % (
                        n, what, x, getattr(got, 'name', got), lab))
                ctx.checked += 1
                res = getattr(obj, 'qRes', None)
                if res is not None and isinstance(x, str) and hasattr(obj, 'resultsDict'):
                    try:
                        got = lookers[k % 2].getByNameOrAlias(x + 'Results')
                    except Exception as e:  # pylint: disable=broad-except
                        raise Violation('lookup', 'after operation %d (%s): looking the results of %r (%s) up raises %s' % (
                            n, what, x, lab, short(e))) from None
                    if got is not res:
                        raise Violation('lookup', 'after operation %d (%s): looking %r up gives %s, not the results of %s' % (
                            n, what, x + 'Results', getattr(got, 'name', got), lab))
                    ctx.checked += 1
            if lookers[0].getByNameOrAlias(obj.name) is not obj or lookers[0].getByNameOrAlias(obj) is not obj:
                raise Violation('lookup', 'after operation %d (%s): looking %s up by its own name object fails' % (
                    n, what, lab))
        for lab, ref, name, aliases in self.dead:
            for x in [name] + aliases:
                if x in names:
                    continue
                try:
                    got = lookers[0].getByNameOrAlias(x)
                except ValueError:
                    continue
                except Exception as e:  # pylint: disable=broad-except
                    raise Violation('dead-lookup', 'after operation %d (%s): looking the deleted %r up raises %s' % (
                        n, what, x, short(e))) from None
                if got is None or str(got.name) != name or got is not ref():
                    raise Violation('dead-lookup', 'after operation %d (%s): looking the deleted %r up gives %s' % (
                        n, what, x, getattr(got, 'name', got)))

    def names(self):
        return [[r[0], r[3], [str(a) for a in r[4]]] for r in self.rows]

    # ---- operations -----------------------------------------------------------------------------------------------
    def taken(self, x):
        for lab, obj, _, name, aliases in self.rows:
            if x == name or x in aliases:
                return obj
        return None

    def apply(self, n, o, ctx):
        kind = o['op']
        fn = getattr(self, 'do_' + kind, None)
        if fn is None:
            return self.s.apply(o)
        return fn(n, o, ctx)

    def do_new(self, n, o, ctx):
        kw = {}
        al = o.get('alias')
        if al is not None and o['how'] == 'kw':
            kw['alias'] = al
        with lib():
            if o['cls'] == 'user':
                obj = user_class()(**kw)
                obj.note = str(obj.name)
            else:
                obj = self.make(o['cls'], **kw)
            if al is not None and o['how'] == 'set':
                obj.alias = al
        self.row('extra %d' % len(self.extras), obj, strs(al) if al is not None else list(obj.alias))
        self.extras.append(obj)

    def do_alias(self, n, o, ctx):
        r = self.rows[o['i'] % len(self.rows)]
        new = [x for x in strs(o['alias']) if self.taken(x) is None and self.taken(str(x) + 'Results') is None]
        for x in list(new):
            try:                 # the library's own objects have names, too
                r[1].getByNameOrAlias(x)
            except ValueError as e:
                if 'no longer' not in str(e):
                    continue
            new.remove(x)
        if not new:
            return
        with lib():
            r[1].alias = new if o['list'] else new[0]
        r[4] += new if o['list'] else new[:1]

    def do_revive(self, n, o, ctx):
        """A name or alias whose object is gone is given to another one: refused, or it means that one from now on."""
        gone = [(nm, k) for k, (_, ref, name, aliases) in enumerate(self.dead) if ref() is None
                for nm in (aliases if o['k'] else [name] + aliases) if isinstance(nm, str) and self.taken(nm) is None]
        if not gone:
            return
        x, k = gone[o['j'] % len(gone)]
        r = self.rows[o['i'] % len(self.rows)]
        try:
            r[1].alias = x
        except ValueError:
            ctx.checked += 1
            return
        except Exception as e:  # pylint: disable=broad-except
            raise Violation('clash', 'operation %d: the alias of a deleted object is refused with %s' % (n, short(e))) from None
        r[4].append(x)
        H.probe('alias_of_deleted_taken')

    def do_clash(self, n, o, ctx):
        a, b = self.rows[o['i'] % len(self.rows)], self.rows[o['j'] % len(self.rows)]
        if a is b:
            return
        x = ([b[3]] + b[4])[o['k'] % (1 + len(b[4]))]
        before = list(a[1].alias)
        try:
            a[1].alias = [x] if o['list'] else x
        except ValueError:
            if x in list(a[1].alias) and x not in before:
                raise Violation('clash', 'operation %d: the refused alias %r was assigned all the same' % (n, x)) from None
            ctx.checked += 1
            return
        except Exception as e:  # pylint: disable=broad-except
            raise Violation('clash', 'operation %d: an alias in use is refused with %s' % (n, short(e))) from None
        raise Violation('clash', 'operation %d: %s took the alias %r, which is in use by %s' % (n, a[0], x, b[0]))

    def do_copy(self, n, o, ctx):
        sysl = [r for r in self.rows if r[0].startswith(('leaf', 'system')) or
                r[0].startswith('extra') and type(r[1]).__name__ in ('Qubit', 'Cavity', 'Spin')]
        r = sysl[o['i'] % len(sysl)]
        with lib():
            new = r[1].copy()
        self.extras.append(new)
        self.row('copy of %s' % r[0], new, list(new.alias))
        for k, leaf in enumerate(new.subSys.values()):
            self.extras.append(leaf)
            self.row('copy of %s, part %d' % (r[0], k), leaf, list(leaf.alias))

    def do_adict(self, n, o, ctx):
        """A random history of a dictionary whose keys are names: every name and alias of an object is the same key."""
        import random
        r = random.Random(o['seed'])
        d, m = self.q.classes.base.aliasDict(), {}
        rows = r.sample(range(len(self.rows)), min(len(self.rows), 4))

        def form(i):
            row = self.rows[i]
            return r.choice([row[1].name, row[3]] + list(row[4]))

        def same(what, got, exp):
            if got != exp or type(got) is not type(exp):
                raise Violation('dict', 'operation %d: %s gives %r, expected %r' % (n, what, got, exp))
        for v in range(r.randint(6, 25)):
            v = None if r.random() < 0.15 else v
            i = r.choice(rows)
            name, k = self.rows[i][1].name, form(i)
            act = r.choice(['set', 'set', 'update', 'pairs', 'kw', 'setdefault', 'del', 'pop', 'popd', 'get', 'item', 'copy'])
            what = '%s with %r of %s' % (act, k, self.rows[i][0])
            k = k if i in m else name            # an object enters under its name
            with lib():
                if act == 'set':
                    d[k] = v
                elif act == 'update':
                    d.update({k: v})
                elif act == 'pairs':
                    d.update([(k, v)])
                elif act == 'kw' and i in m and isinstance(k, str):
                    d.update({}, **{k: v})
                elif act == 'setdefault':
                    same(what, d.setdefault(k, v), m.get(i, v))
                elif act == 'copy':
                    d = d.copy()
                elif act == 'get':
                    same(what, d.get(k, 'none'), m.get(i, 'none'))
                elif act == 'popd':
                    same(what, d.pop(k, 'none'), m.pop(i, 'none'))
                elif act in ('del', 'pop', 'item'):
                    try:
                        if act == 'del':
                            del d[k]
                            got = m.get(i)
                        else:
                            got = d.pop(k) if act == 'pop' else d[k]
                    except KeyError:
                        got = KeyError
                    if (got is KeyError) != (i not in m):
                        raise Violation('dict', 'operation %d: %s %s' % (
                            n, what, 'raises KeyError' if got is KeyError else 'does not raise KeyError'))
                    if i in m:
                        same(what, got, m[i] if act == 'item' else m.pop(i))
            if act in ('set', 'update', 'pairs') or act == 'kw' and i in m and isinstance(k, str):
                m[i] = v
            if act == 'setdefault':
                m.setdefault(i, v)
            same('the number of keys after ' + what, len(d), len(m))
            for x in rows:
                f = form(x)
                same('%r in the dictionary after %s' % (f, what), f in d, x in m)
                if x in m:
                    same('the value of %r after %s' % (f, what), d[f], m[x])
            ctx.checked += 1
        if type(d).__name__ != 'aliasDict':
            raise Violation('dict', 'operation %d: the copy is a %s' % (n, type(d).__name__))

    def do_del(self, n, o, ctx):
        mine = [i for i, r in enumerate(self.rows) if r[0].startswith('extra') and
                type(r[1]).__name__ in ('qBase', 'named', 'Sweep', 'UserClass', 'Qubit', 'Simulation')]
        if not mine:
            return
        r = self.rows.pop(mine[o['i'] % len(mine)])
        self.extras = [x for x in self.extras if x is not r[1]]
        self.dead.append((r[0], r[2], r[3], r[4]))
        r[1] = None
        del r
        if o['gc']:
            gc.collect()

    def do_byname(self, n, o, ctx):
        """Names stand for objects wherever the library accepts an object."""
        free = [r for r in self.rows if r[0].startswith('extra') and type(r[1]).__name__ in ('Qubit', 'Cavity', 'Spin') and
                r[1].superSys is None]
        if len(free) < 2:
            return
        a, b = free[0], free[1]
        na, nb = [([r[3]] + [x for x in r[4] if isinstance(x, str)])[o['k'] % (1 + len([
            x for x in r[4] if isinstance(x, str)]))] for r in (a, b)]
        with lib():
            c = self.q.QuantumSystem()
            c.addSubSys(na)
            c.addSubSys([nb])
            t = c.createTerm(qSystem=[nb, na], operator=[self.s.w.op['Jx'], self.s.w.op['Jz']], frequency=0.5)
        subs = list(c.subSys.values())
        if len(subs) != 2 or subs[0] is not a[1] or subs[1] is not b[1]:
            raise Violation('by-name', 'operation %d: adding sub-systems by the names %r and %r added %s' % (
                n, na, nb, [str(x.name) for x in subs]))
        ts = t.qSystem
        if len(ts) != 2 or ts[0] is not b[1] or ts[1] is not a[1]:
            raise Violation('by-name', 'operation %d: a term between %r and %r is between %s' % (
                n, nb, na, [str(x.name) for x in ts]))
        self.row('extra %d' % len(self.extras), c, list(c.alias))
        self.extras.append(c)
        self.row('byname term %d' % n, t, list(t.alias))
        ctx.checked += 1

    def do_run(self, n, o, ctx):
        s = self.s
        swept = {str(p) for sw in s.spec.get('sweeps', []) + s.spec.get('tdsweeps', []) for p in sw['paths']}
        values = []
        for path in scalar_paths(s.spec):
            if path[0] != 'systems' or path[-1] not in ('freq', 'rate'):
                continue
            if str(path) not in swept and model.get(s.spec, path[:-1]).get('tds'):
                continue
            if any(str(p) == str(path) for sw in s.spec.get('tdsweeps', []) for p in sw['paths']):
                continue
            if path[-1] == 'rate' and ('temp' in model.get(s.spec, path[:-1]) or any(
                    path[3] in b['diss'] for b in s.spec['systems'][path[1]].get('baths', []))):
                continue            # reads as the rate at that temperature
            obj, attr, _ = s.w.target(path)
            values.append((str(obj.name), attr, path))
        table = [(r[0], type(r[1]).__name__, [r[3]] + r[4]) for r in self.rows]
        for c in s.spec.get('cbs', []):
            attr = {'compute': 'compute', 'pre': 'preCompute', 'post': 'postCompute'}[c['when']]
            cb = getattr(s.w.owner(c['owner']), attr)
            if isinstance(cb, LookCb):
                cb.table, cb.values = table, values
                cb.sim = ([str(s.w.sim.name)] + [x for x in self.rows[0][4]])[n % (1 + len(self.rows[0][4]))]
        before = s.params()
        out = s.run(o)
        ctx.note_run(out)
        what = 'run in operation %d (p=%s)' % (n, o.get('p'))
        if o.get('faults'):
            if out.fired.get('cb_raise_' + o['faults'][0].get('exc', '')) and out.exc is None:
                raise Violation('unexpected-success', '%s returned normally although a callback raised' % what)
            if out.exc is not None and not out.fired:
                s.check_ok(out, what)
            s.reset_swept()
        else:
            s.check_ok(out, what)
            _, evs = s.expect()
            def wrong(events, ev):
                sets = {str(p): v for p, v in ev['sets']}
                for e in events:
                    e = e[1:] if e[0] == 'lead' else e
                    if e[0] != 'look':
                        continue
                    for i, got in e[3]:
                        path = values[i][2]
                        exp = sets.get(str(path), s.base(path))
                        if got != exp and not (isinstance(got, (int, float)) and abs(got - exp) < 1e-12):
                            return 'in %s, the object called %s has %s = %s, expected %s' % (
                                e[1], values[i][0], values[i][1], got, exp)
                        ctx.checked += 1
                return None
            for events, ev in s.check_trace(out, evs, what, wrong):
                msg = wrong(events, ev)
                if msg:
                    raise Violation('point-value', '%s, point %s: %s' % (what, ev['idx'], msg))
            if not out.parallel:
                s.reset_swept()
            else:
                after = s.params()
                diff = [k for k in before if before[k] != after[k] and before[k] is not None]
                if diff:
                    s.reset_swept()
        for _, worker, events in s.evolutions(out):
            for e in events:
                e = e[1:] if e[0] == 'lead' else e
                if e[0] == 'look' and e[2]:
                    raise Violation('lookup-in-run', '%s, in %s%s: %s' % (
                        what, e[1], '' if worker is None else ' on worker %s' % worker, e[2][0]))
        ctx.sig('run', o.get('p'), o.get('policy'), bool(o.get('faults')), len(table), len(self.dead))
        return out


class NullCtx:
    checked = 0

    def note_run(self, out):
        pass

    def sig(self, *a):
        pass


def ref_names(case):
    """The same program in another process, with other schedules: the names it ends up with."""
    fresh_hub()
    b = Book(_q(), case)
    for n, o in enumerate(case['ops'], 1):
        if o['op'] == 'run' and 'sched' in o:
            o = dict(o, sched=o['sched'] ^ 0x5a5a, policy='random')
        b.apply(n, o, NullCtx())
    return b.names()


def exec_names(case, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code = ("import sys, json; sys.path.insert(0, %r); from dst import seams; seams.load(); "
            "from dst.props import names; print(json.dumps(names.ref_names(json.load(sys.stdin))))" % here)
    p = subprocess.run([sys.executable, '-c', code], input=json.dumps(case), capture_output=True, text=True, env=env,
                       check=False, timeout=80)
    if p.returncode != 0:
        raise Violation('other-process', 'the same program fails in another process: %s' % p.stderr.strip().split('\n')[-1][:200])
    return json.loads(p.stdout.strip().split('\n')[-1])


class C09:
    runs = {'quick': 620, 'thorough': 14000}

    @staticmethod
    def gen(r, tier):
        spec = G.spec(r, opened=r.random() < 0.15, maxtotal=6, maxpoints=6, maxsteps=2, samples=False, fixed=False, td=False)
        k = [0]

        def ali():
            k[0] += 1
            x = r.random()
            if x < 0.5:
                return 'al%d' % k[0]
            if x < 0.6:
                return ['al%da' % k[0], 'al%db' % k[0]]
            if x < 0.7:
                return 'Qubit%d ' % k[0]
            if x < 0.8:
                return 'ä b%d' % k[0]
            return 'x%d' % k[0]
        for sysm in spec['systems']:
            if r.random() < 0.4:
                sysm['alias'] = ali()
            for lf in sysm['leaves']:
                if r.random() < 0.5:
                    lf['alias'] = ali()
            for c in sysm['couplings']:
                if c['kind'] == 'term' and r.random() < 0.5:
                    c['byname'] = True
        for p in spec['protocols']:
            if r.random() < 0.4 and not p.get('default'):
                p['alias'] = ali()
        if r.random() < 0.4:
            spec['sim']['alias'] = ali()
        for sw in spec.get('sweeps', []):
            if r.random() < 0.5:
                sw['byname'] = True
        for c in spec['cbs']:
            c['look'] = r.random() < 0.5 or c['owner'] == 'sim'
            c['recs'] = c['recs'][:1]
        ops = []
        for _ in range(r.randint(3, 9)):
            x = r.random()
            if x < 0.25:
                y = r.random()
                al = None
                if y < 0.45:
                    al = ali()
                    if r.random() < 0.1:
                        al = r.randrange(10 ** 6)
                cls = r.choice(CLASSES + ['user'])
                if isinstance(al, int):
                    cls = r.choice(['qBase', 'named'])
                ops.append({'op': 'new', 'cls': cls, 'alias': al, 'how': r.choice(['kw', 'set'])})
            elif x < 0.38:
                a = ali()
                if r.random() < 0.35:    # a name the library itself would give to a later object
                    a = '%s%d' % (r.choice(sorted(LABEL.values())), r.randint(1, 9))
                ops.append({'op': 'alias', 'i': r.randrange(1000), 'alias': a, 'list': isinstance(a, list) or r.random() < .3})
            elif x < 0.5:
                ops.append({'op': 'clash', 'i': r.randrange(1000), 'j': r.randrange(1000), 'k': r.randrange(4),
                            'list': r.random() < 0.3})
            elif x < 0.57:
                ops.append({'op': 'copy', 'i': r.randrange(1000)})
            elif x < 0.67:
                ops.append({'op': 'del', 'i': r.randrange(1000), 'gc': r.random() < 0.6})
                if r.random() < 0.5:
                    ops.append({'op': 'revive', 'i': r.randrange(1000), 'j': r.randrange(100), 'k': r.choice([0, 1])})
            elif x < 0.72:
                ops.append({'op': 'byname', 'k': r.randrange(3)})
            elif x < 0.76:
                ops.append({'op': 'adict', 'seed': r.randrange(10 ** 6)})
            elif x < 0.79:
                ops += param_edit(r, spec)
            else:
                o = parallel_op(r) if r.random() < 0.65 else {'op': 'run', 'p': False}
                if r.random() < 0.2:
                    o['faults'] = [{'kind': 'cb_raise', 'site': 'sim.compute', 'point': r.randrange(npoints_of(spec)),
                                    'k': r.choice([1, 2]), 'exc': r.choice(['ValueError', 'CustomError', 'KeyboardInterrupt'
                                                                            ] if not o['p'] else ['ValueError', 'CustomError'])}]
                ops.append(o)
        if not any(o['op'] == 'run' and o.get('p') for o in ops):
            ops.append(parallel_op(r))
        return {'spec': spec, 'ops': ops, 'other': r.choice(['fork'] * 12 + ['exec']), 'hashseed': r.randrange(1, 10 ** 6)}

    @staticmethod
    def execute(case, ctx):
        b = Book(_q(), case)
        ctx.sig('spec', features(case['spec']))
        b.check(0, 'creation', ctx)
        for n, o in enumerate(case['ops'], 1):
            b.apply(n, o, ctx)
            b.check(n, o['op'], ctx)
            ctx.sig('op', o['op'], o.get('cls'), len(b.rows), len(b.dead))
        mine = b.names()
        if case['other'] == 'exec':
            other = exec_names(case, case['hashseed'])
        else:
            try:
                other = ctx.ref.call(ref_names, case)
            except RefError as e:
                raise Violation('other-process', 'the same program fails in another process: %s' % e) from None
        if other != mine:
            d = [(a, c) for a, c in zip(mine, other) if a != c][:1] or [(len(mine), len(other))]
            raise Violation('other-names', 'the same program gives other names in another process: %s' % (d[0],))
        ctx.checked += 1
