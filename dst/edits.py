"""Structural edits: the same operation on the spec (pure) and on the real objects."""
import copy

from . import gen as G
from . import model

KINDS = ('addterm', 'rmterm', 'setterms', 'addcoup', 'rmcoup', 'addleaf', 'rmleaf', 'rmsub', 'addstep', 'rmstep', 'addup', 'adddiss', 'joinbath', 'gatesys', 'gaterm')
ALL = KINDS + ('addsub',)
COMPOSE = ('rmpro', 'addpro', 'replace', 'rmsys', 'rmsweepof', 'resetpros', 'newsys', 'newpro', 'addtds')


def spec_edit(spec, o):
    """Apply a structural operation to a spec in place."""
    k = o['op']
    if k == 'addterm':
        spec['systems'][o['s']]['leaves'][o['i']]['terms'].append(copy.deepcopy(o['term']))
    elif k == 'setterms':
        spec['systems'][o['s']]['leaves'][o['i']]['terms'] = copy.deepcopy(o['terms'])
    elif k == 'rmterm':
        spec['systems'][o['s']]['leaves'][o['i']]['terms'].pop(o['j'])
    elif k == 'addcoup':
        spec['systems'][o['s']].setdefault('couplings', []).append(copy.deepcopy(o['c']))
    elif k == 'rmcoup':
        spec['systems'][o['s']]['couplings'].pop(o['k'])
    elif k == 'addleaf':
        sysm = spec['systems'][o['s']]
        i = o.get('at', len(sysm['leaves']))
        shift(spec, o['s'], lambda x: x + (x >= i))
        sysm['leaves'].insert(i, copy.deepcopy(o['leaf']))
        if isinstance(sysm['init'], list):
            sysm['init'] = sysm['init'][:i] + [o['linit']] + sysm['init'][i:]
        if sysm.get('tree'):
            sysm['tree'] = bumped(sysm['tree'], i)
            node(sysm['tree'], o.get('into') or []).append(i)
    elif k == 'rmleaf':
        sysm = spec['systems'][o['s']]
        i = o.get('i', len(sysm['leaves']) - 1)
        sysm['leaves'].pop(i)
        sysm['init'] = sysm['init'][:i] + sysm['init'][i + 1:]
        if sysm.get('tree'):
            sysm['tree'] = without(sysm['tree'], i)
        kept = [k for k, c in enumerate(sysm.get('couplings', [])) if i not in c['leaves']]
        if 'couplings' in sysm:
            sysm['couplings'] = [sysm['couplings'][k] for k in kept]
        shift(spec, o['s'], lambda x: x - (x > i))
        return kept
    elif k == 'rmsub':
        sysm = spec['systems'][o['s']]
        inner = sorted(flat(node(sysm['tree'], o['n'])), reverse=True)
        return [spec_edit(spec, {'op': 'rmleaf', 's': o['s'], 'i': i}) for i in inner]
    elif k == 'addsub':
        sysm = spec['systems'][o['s']]
        n = len(sysm['leaves'])
        sysm['leaves'] += copy.deepcopy(o['leaves'])
        sysm['init'] = sysm['init'] + copy.deepcopy(o['inits'])
        sysm['tree'] = sysm['tree'] + [moved(o['tree'], n)]
        sysm.setdefault('couplings', []).extend(
            dict(copy.deepcopy(c), leaves=[x + n for x in c['leaves']]) for c in o['coups'])
    elif k == 'addstep':
        spec['protocols'][o['p']]['steps'].append(copy.deepcopy(o['st']))
    elif k == 'rmstep':
        spec['protocols'][o['p']]['steps'].pop()
    elif k == 'addup':
        spec['protocols'][o['p']]['steps'][o['k']].setdefault('updates', []).append(copy.deepcopy(o['up']))
    elif k == 'adddiss':
        pro = spec['protocols'][o['p']]
        pro.setdefault('diss', []).append(o['k'])
    elif k == 'joinbath':
        sysm = spec['systems'][o['s']]
        for b in sysm['baths']:
            b['diss'] = [x for x in b['diss'] if x != o['k']]
        sysm['baths'][o['b']]['diss'].append(o['k'])
        sysm['diss'][o['k']].pop('temp', None)
    elif k == 'gatesys':
        spec['protocols'][o['p']]['steps'][o['k']]['leaves'].append(o['i'])
    elif k == 'gaterm':
        spec['protocols'][o['p']]['steps'][o['k']]['leaves'].remove(o['i'])
    elif k in COMPOSE:
        return compose_spec(spec, o)
    else:
        raise KeyError(k)
    return None


def shift(spec, s, fn):
    """Leaf indices of a system change."""
    sysm = spec['systems'][s]
    for lf in sysm['leaves']:
        lf.pop('copyof', None)
    for c in sysm.get('couplings', []) + [st for q in spec['protocols'] if q['sys'] == s for st in G.flat_steps(q)
                                          if 'leaves' in st]:
        c['leaves'] = [fn(x) for x in c['leaves']]
    for d in sysm.get('diss', []):
        d['leaf'] = fn(d['leaf'])


def node(tree, path):
    for n in path:
        tree = tree[n]
    return tree


def nodes(tree, path=()):
    """Paths of the composites inside a tree."""
    out = []
    for n, x in enumerate(tree):
        if isinstance(x, list):
            out += [list(path) + [n]] + nodes(x, list(path) + [n])
    return out


def bumped(tree, i):
    return [bumped(n, i) if isinstance(n, list) else n + (n >= i) for n in tree]


def moved(tree, by):
    return [moved(n, by) if isinstance(n, list) else n + by for n in tree]


def parent(tree, i):
    """The composite a leaf is directly in."""
    for n in tree:
        if isinstance(n, list) and i in flat(n):
            return parent(n, i)
    return tree


def without(tree, i):
    out = [without(n, i) if isinstance(n, list) else n - (n > i) for n in tree if n != i]
    return [n for n in out if n != []]


def flat(tree):
    return [x for n in tree for x in (flat(n) if isinstance(n, list) else [n])]


def alone(tree, i):
    """Whether a leaf is the only part of the composite that contains it."""
    return any((n == i and len(tree) == 1) if not isinstance(n, list) else alone(n, i) for n in tree)


# ---- what a simulation contains --------------------------------------------------------------------------------------

def swept_obj(spec, sw, path):
    """Identity of the object a sweep drives through a path."""
    if path[0] == 'aux' and spec['auxin'][path[1]] == 'dict':
        return system_obj(spec, 0)
    if path[0] == 'systems':
        s = path[1]
        if path[2] == 'init':
            return ('leaf', s, 0) if not spec['systems'][s]['comp'] else ('sys', s)
        if path[2] == 'leaves' and (sw.get('top') or sw.get('gap') or path[4] != 'terms'):
            return ('leaf', s, path[3])
    return tuple(path[:-1])


def drop_swept(spec, objs, td=True):
    """Remove objects from all sweeps; sweeps without objects vanish.  The surviving indices."""
    for sw in spec.get('tdsweeps', []) if td else []:
        for p in [p for p in sw['paths'] if swept_obj(spec, sw, p) in objs]:
            sw['paths'].remove(p)
            model.get(spec, p[:-1]).pop('tds', None)
    if 'tdsweeps' in spec:
        spec['tdsweeps'] = [sw for sw in spec['tdsweeps'] if sw['paths']]
    kept = []
    for i, sw in enumerate(spec.get('sweeps', [])):
        sw['paths'] = [p for p in sw['paths'] if swept_obj(spec, sw, p) not in objs]
        if sw['paths']:
            kept.append(i)
    spec['sweeps'] = [spec['sweeps'][i] for i in kept]
    return kept


def system_obj(spec, s):
    return ('sys', s) if spec['systems'][s]['comp'] else ('leaf', s, 0)


def compose_spec(spec, o):
    k = o['op']
    lv = model.live(spec)
    objs = []

    def remove(p):
        lv.remove(p)
        objs.append(('protocols', p))
        s = spec['protocols'][p]['sys']
        if not any(spec['protocols'][q]['sys'] == s for q in lv):
            objs.append(system_obj(spec, s))
    if k == 'rmpro':
        remove(o['p'])
    elif k == 'addpro':
        lv.append(o['p'])
    elif k == 'replace':
        lv.append(o['p'])
        remove(o['q'])
    elif k == 'rmsys':
        for p in [p for p in lv if spec['protocols'][p]['sys'] == o['s']]:
            remove(p)
    elif k == 'rmsweepof':
        sw = spec['sweeps'][o['i']]
        objs.append(swept_obj(spec, sw, sw['paths'][o['j']]))
    elif k == 'resetpros':
        lv = list(o['in'])
    elif k == 'newsys':
        spec['systems'].append(copy.deepcopy(o['system']))
        spec['protocols'].append({'sys': len(spec['systems']) - 1, 'kind': 'free', 'default': True, 'id': 0})
        lv.append(len(spec['protocols']) - 1)
    elif k == 'newpro':
        spec['protocols'].append(copy.deepcopy(o['pro']))
        lv.append(len(spec['protocols']) - 1)
    elif k == 'addtds':
        spec['tdsweeps'] = spec.get('tdsweeps', []) + copy.deepcopy(o['tds'])
        for t in o['tds']:
            for p in t['paths']:
                model.get(spec, p[:-1])['tds'] = True
    spec['in'] = lv
    return drop_swept(spec, objs, k != 'rmsweepof' or o.get('how') == 'sim') if objs else list(range(len(spec.get('sweeps', []))))


def handle(w, spec, p, by):
    """What a user writes to name a protocol."""
    pro = w.protocols[p]
    if spec['protocols'][p].get('default') and by in ('sysname', 'sys'):
        top = w.systems[spec['protocols'][p]['sys']]
        return top if by == 'sys' else top.name
    if by == 'name':
        return pro.name
    if by == 'alias':
        if not pro.alias:
            pro.alias = 'protocol alias %d' % p
        return pro.alias[0]
    return pro


def compose_world(s, o, kept):
    w, k, spec = s.w, o['op'], s.spec
    sim = w.sim
    own = spec['sim'].get('mode') == 'sys'

    def add(p, how):
        sysi = spec['protocols'][p]['sys']
        top = w.systems[sysi]
        if spec['protocols'][p].get('default') and how == 'sys':
            sim.addSubSys(top)
        elif how == 'addProtocol' or how == 'sys':
            (top if own else sim).addProtocol(w.protocols[p])
        elif how == 'addQSystems':
            sim.addQSystems(top, w.protocols[p])
        else:
            sim.addSubSys(top, w.protocols[p])
    if k == 'rmpro':
        sim.removeProtocol(handle(w, spec, o['p'], o.get('by')))
    elif k == 'addpro':
        add(o['p'], o.get('how'))
    elif k == 'replace':
        (w.systems[0] if own else sim).addProtocol(w.protocols[o['p']], protocolRemove=handle(w, spec, o['q'], o.get('by')))
    elif k == 'rmsys':
        top = w.systems[o['s']]
        x = {'name': lambda: top.name, 'str': lambda: str(top.name)}.get(o.get('by'), lambda: top)()
        (sim.removeSubSys if o.get('how') == 'removeSubSys' else sim.removeQSystems)(x)
    elif k == 'rmsweepof':
        obj = o['_obj']
        x = obj.name if o.get('by') == 'name' else obj
        (sim if o.get('how') == 'sim' else sim.Sweep).removeSweep(x)
    elif k == 'resetpros':
        sim.resetSubSys()
        for p in o['in']:
            add(p, 'sys' if spec['protocols'][p].get('default') else o.get('how'))
    elif k == 'newsys':
        i = len(spec['systems']) - 1
        if o.get('how') == 'create':
            lf = spec['systems'][i]['leaves'][0]
            top = sim.createSubSys(getattr(w.q, lf['cls']), frequency=lf['terms'][0]['freq'], **(
                {} if lf['cls'] == 'Qubit' else {'dimension': lf['dim']}))
            from .world import real_input
            top.initialState = real_input(spec['systems'][i]['init'])
            w.systems.append(top)
            w.leaves.append([top])
            w.terms.append([list(top.terms.values())])
            w.coup.append([])
            w.diss.append([])
        else:
            w._system(i)
            sim.addSubSys(w.systems[i])
        w._protocol(len(spec['protocols']) - 1)
    elif k == 'newpro':
        p = len(spec['protocols']) - 1
        w._protocol(p)
        add(p, o.get('how'))
    elif k == 'addtds':
        for t in spec['tdsweeps'][-len(o['tds']):]:
            w._tdsweep(t)
    w.sweeps[:] = [w.sweeps[i] for i in kept]


def world_edit(s, o, info=None):
    """Apply the same operation to the real objects of a session (the spec is edited first)."""
    w, k = s.w, o['op']
    if k == 'addterm':
        t = o['term']
        leaf = w.leaves[o['s']][o['i']]
        if o.get('how') == 'back':
            new = w.removed[('term', o['s'])].pop()
            leaf.addTerms(new)
        elif o.get('how') == 'add':
            new = make_term(w, leaf, t)
            leaf.addTerms(new)
        else:
            new = leaf.createTerm(operator=w.op[t['op']], frequency=t['freq'], order=t.get('order', 1))
        w.terms[o['s']][o['i']].append(new)
    elif k == 'setterms':
        leaf = w.leaves[o['s']][o['i']]
        if o['how'] == 'setter':
            new = [make_term(w, leaf, t) for t in o['terms']]
            leaf.terms = new
        else:
            leaf.resetTerms()
            new = []
            for t in o['terms']:
                if o['how'] == 'first' and not new:
                    leaf.operator, leaf.frequency, leaf.order = w.op[t['op']], t['freq'], t.get('order', 1)
                    new.append(list(leaf.terms.values())[0])
                else:
                    new.append(leaf.createTerm(operator=w.op[t['op']], frequency=t['freq'], order=t.get('order', 1)))
        w.terms[o['s']][o['i']] = new
    elif k == 'rmterm':
        t = w.terms[o['s']][o['i']].pop(o['j'])
        owner = w.systems[o['s']] if o.get('via') == 'top' else w.leaves[o['s']][o['i']]
        owner.removeTerm(t)
        w.removed.setdefault(('term', o['s']), []).append(t)
    elif k == 'addcoup' and o.get('how') == 'back':
        new = w.removed[('coup', o['s'])].pop()
        w.systems[o['s']].addTerms(new)
        w.coup[o['s']].append(new)
    elif k == 'addcoup':
        c = o['c']
        w.coup[o['s']].append(w.systems[o['s']].createTerm(
            qSystem=[w.leaves[o['s']][i] for i in c['leaves']], operator=[w.op[n] for n in c['ops']],
            frequency=c['freq']))
    elif k == 'rmcoup':
        t = w.coup[o['s']].pop(o['k'])
        owner = w.leaves[o['s']][0] if o.get('via') == 'leaf' else w.systems[o['s']]
        # the object of a named coupling (JC, Rabi, Dicke) only groups the terms that are in the system
        gone = t.name in t.superSys.terms
        owner.removeTerm(t if gone else list(t.subSys.values()))
        if gone:
            w.removed.setdefault(('coup', o['s']), []).append(t)
    elif k == 'addleaf':
        top = w.systems[o['s']]
        i = o.get('at', len(w.leaves[o['s']]))
        for n in o.get('into') or []:
            top = list(top.subSys.values())[n]
        if o.get('re') and w.removed.get(o['s']):
            leaf, terms = w.removed[o['s']].pop()
        else:
            leaf, terms = w._leaf(o['s'], i)
        if o['how'] == 'plus':
            top + leaf  # pylint: disable=pointless-statement
        else:
            top.addSubSys(leaf)
        w.leaves[o['s']].insert(i, leaf)
        w.terms[o['s']].insert(i, terms)
        _reinit(s, o['s'])
    elif k == 'rmleaf':
        i = o.get('i', len(w.leaves[o['s']]) - 1)
        top = w.leaves[o['s']][i].superSys if o.get('via') == 'parent' else w.systems[o['s']]
        leaf = w.leaves[o['s']].pop(i)
        terms = w.terms[o['s']].pop(i)
        w.removed.setdefault(o['s'], []).append((leaf, terms))
        w.coup[o['s']] = [w.coup[o['s']][k] for k in info]
        if o['how'] == 'minus':
            top - leaf  # pylint: disable=pointless-statement
        else:
            top.removeSubSys({'name': leaf.name, 'str': str(leaf.name)}.get(o['how'], leaf))
        _reinit(s, o['s'])
    elif k == 'rmsub':
        top = inner = w.systems[o['s']]
        for n in o['n']:
            inner = list(inner.subSys.values())[n]
        if o.get('via') == 'parent':
            top = inner.superSys
        parts = leaves_of(inner)
        gone = [i for i, lf in enumerate(w.leaves[o['s']]) if any(lf is x for x in parts)]
        own = [c for c in w.coup[o['s']] if c.superSys is not w.systems[o['s']] and
               all(any(x is y for y in parts) for x in c.qSystem)]
        w.removed.setdefault((o['s'], 'sub'), []).append(
            (inner, [w.leaves[o['s']][i] for i in gone], [w.terms[o['s']][i] for i in gone], own))
        for i, kept in zip(reversed(gone), info):
            w.leaves[o['s']].pop(i)
            w.terms[o['s']].pop(i)
            w.coup[o['s']] = [w.coup[o['s']][k] for k in kept]
        if o['how'] == 'minus':
            top - inner  # pylint: disable=pointless-statement
        else:
            top.removeSubSys({'name': inner.name, 'str': str(inner.name)}.get(o['how'], inner))
        _reinit(s, o['s'])
    elif k == 'addsub':
        inner, leaves, terms, coups = w.removed[(o['s'], 'sub')].pop()
        w.coup[o['s']] += coups
        w.systems[o['s']].addSubSys(inner)
        w.leaves[o['s']] += leaves
        w.terms[o['s']] += terms
        _reinit(s, o['s'])
    elif k == 'addstep':
        pro = w.protocols[o['p']]
        made = w.steps[o['p']]
        made.append(w._step(o['p'], s.spec['protocols'][o['p']], s.spec['protocols'][o['p']]['steps'][-1], made))
        pro.addStep(made[-1])
    elif k == 'rmstep':
        pro = w.protocols[o['p']]
        w.steps[o['p']].pop()
        pro.removeSubSys(list(pro.steps.values())[-1])
    elif k == 'addup':
        st = w.steps[o['p']][o['k']]
        w.keep.append(w._make_update(st, o['up']))
    elif k == 'adddiss':
        w.diss[s.spec['protocols'][o['p']]['sys']][o['k']].addToProtocol(w.protocols[o['p']])
    elif k == 'joinbath':
        w.baths[o['s']][o['b']].dissipator = w.diss[o['s']][o['k']]
    elif k == 'gatesys':
        w.steps[o['p']][o['k']].addSys(w.leaves[s.spec['protocols'][o['p']]['sys']][o['i']])
    elif k == 'gaterm':
        w.steps[o['p']][o['k']].removeSubSys(w.leaves[s.spec['protocols'][o['p']]['sys']][o['i']])
    elif k in COMPOSE:
        compose_world(s, o, info)
    else:
        raise KeyError(k)


def leaves_of(system):
    return [y for x in system.subSys.values() for y in leaves_of(x)] if system.subSys else [system]


def make_term(w, leaf, t):
    """A term that is built on its own."""
    from quanguru.classes.QTerms import QTerm
    return QTerm(superSys=leaf, qSystem=leaf, operator=w.op[t['op']], frequency=t['freq'], order=t.get('order', 1))


def _reinit(s, i):
    """A system whose parts changed is given its initial state again."""
    from .world import real_input
    sysm = s.spec['systems'][i]
    if sysm.get('initby') != 'leaves':
        s.w.systems[i].initialState = real_input(s.w._nest_init(sysm))
    else:
        s.w.leaves[i][-1].initialState = real_input(sysm['init'][-1])


def used_paths(spec):
    out = set()
    for sw in spec.get('sweeps', []) + spec.get('tdsweeps', []):
        out |= {str(p) for p in sw['paths']}
    for p in spec['protocols']:
        for st in [p] + list(G.flat_steps(p)):
            out |= {str(q) for u in st.get('updates', []) for q in [u['path']] + u.get('also', [])}
    return out


def structural(r, spec, ids, kinds=KINDS):
    """One random structural edit that is possible for the spec, or []."""
    kinds = list(kinds)
    r.shuffle(kinds)
    used = used_paths(spec)
    for kind in kinds:
        s = r.randrange(len(spec['systems']))
        sysm = spec['systems'][s]
        i = r.randrange(len(sysm['leaves']))
        lf = sysm['leaves'][i]
        p = r.randrange(len(spec['protocols']))
        pro = spec['protocols'][p]
        if kind == 'addterm' and len(lf['terms']) < 4:
            t = {'op': r.choice(['Jx', 'Jy', 'Jz', 'number']), 'freq': G.freq(r)}
            if r.random() < 0.3:
                t['order'] = 2
            return [{'op': kind, 's': s, 'i': i, 'term': t, 'how': r.choice(['create', 'add'])}]
        if kind == 'setterms' and r.random() < 0.5:
            if any(str(['systems', s, 'leaves', i, 'terms'])[:-1] in u for u in used):
                continue
            if any(c['kind'] != 'term' and i in c['leaves'] for c in sysm.get('couplings', [])):
                continue
            terms = [t for t in G.leaf(r, lf['dim'], pauli=lf['dim'] == 2, cls='Qubit' if lf['dim'] == 2 else 'Cavity')['terms']]
            return [{'op': kind, 's': s, 'i': i, 'terms': terms, 'how': r.choice(['setter', 'reset', 'first'])}]
        if kind == 'rmterm' and len(lf['terms']) > 1:
            j = len(lf['terms']) - 1
            if any(str(['systems', s, 'leaves', i, 'terms', j])[:-1] in u for u in used):
                continue
            out = [{'op': kind, 's': s, 'i': i, 'j': j, 'via': r.choice(['leaf', 'top'])}]
            if r.random() < 0.4 and not lf['terms'][j].get('td'):
                out.append({'op': 'addterm', 's': s, 'i': i, 'term': copy.deepcopy(lf['terms'][j]), 'how': 'back'})
            return out
        if kind == 'addcoup' and sysm['comp'] and len(sysm.get('couplings', [])) < 3 and len(sysm['leaves']) > 1:
            a, b = r.sample(range(len(sysm['leaves'])), 2)
            c = {'kind': 'term', 'leaves': [a, b], 'ops': [r.choice(['Jx', 'Jz', 'number', 'Jy']),
                                                          r.choice(['Jx', 'Jz', 'number'])], 'freq': G.freq(r)}
            return [{'op': kind, 's': s, 'c': c}]
        if kind == 'rmcoup' and sysm.get('couplings'):
            k = len(sysm['couplings']) - 1
            if any(str(['systems', s, 'couplings', k])[:-1] in u for u in used):
                continue
            out = [{'op': kind, 's': s, 'k': k, 'via': r.choice(['top', 'top', 'leaf'])}]
            c = sysm['couplings'][k]
            if r.random() < 0.4 and c['kind'] == 'term' and not c.get('at') and not c.get('td'):
                out.append({'op': 'addcoup', 's': s, 'c': copy.deepcopy(c), 'how': 'back'})
            return out
        if kind in ('addleaf', 'rmleaf', 'rmsub'):
            if not sysm['comp'] or sysm.get('initarr') or any(q.get('init') is not None for q in spec['protocols']
                                                           if q['sys'] == s):
                continue
            if any(str(['systems', s, 'init'])[:-1] in u for u in used):
                continue
        if kind == 'addleaf' and len(sysm['leaves']) < 4:
            n = 1
            for d in model.dims(sysm):
                n *= d
            if n > 8:
                continue
            leaf = G.leaf(r, 3)
            out = {'op': kind, 's': s, 'leaf': leaf, 'linit': G.leaf_init(r, leaf['dim'], False),
                   'how': r.choice(['add', 'plus'])}
            if sysm.get('tree') and nodes(sysm['tree']) and r.random() < 0.6:
                into = r.choice(nodes(sysm['tree']))
                at = max(flat(node(sysm['tree'], into))) + 1
                if not any(str(['systems', s, 'leaves', x])[:-1] in u for x in range(at, len(sysm['leaves'])) for u in used):
                    out.update(into=into, at=at)
            return [out]
        if kind == 'rmleaf' and len(sysm['leaves']) > 1:
            k = i
            ref = any(d['leaf'] == k for d in sysm.get('diss', [])) or (sysm.get('tree') and alone(sysm['tree'], k)) or \
                any(str(['systems', s, 'leaves', x])[:-1] in u for x in range(k, len(sysm['leaves'])) for u in used) or \
                any(k in st.get('leaves', []) for q in spec['protocols'] if q['sys'] == s for st in G.flat_steps(q)) or \
                any(str(['systems', s, 'couplings'])[:-1] in u for u in used)
            if ref:
                continue
            out = [{'op': kind, 's': s, 'i': k, 'how': r.choice(['remove', 'minus', 'name', 'str']),
                    'via': r.choice(['top', 'parent'])}]
            if r.random() < 0.5:
                leaf = copy.deepcopy(sysm['leaves'][k])
                leaf.pop('copyof', None)
                out.append({'op': 'addleaf', 're': True, 's': s, 'leaf': leaf,
                            'linit': sysm['init'][k], 'how': r.choice(['add', 'plus'])})
            return out
        if kind == 'rmsub' and sysm.get('tree') and len(sysm['tree']) > 1:
            ns = [n for n in nodes(sysm['tree']) if len(node(sysm['tree'], n[:-1])) > 1]
            if not ns:
                continue
            n = r.choice(ns)
            ins = flat(node(sysm['tree'], n))
            if any(d['leaf'] in ins for d in sysm.get('diss', [])) or \
                    any(str(['systems', s, 'leaves', x])[:-1] in u for x in range(min(ins), len(sysm['leaves'])) for u in used) or \
                    any(set(ins) & set(st.get('leaves', [])) for q in spec['protocols'] if q['sys'] == s for st in G.flat_steps(q)) or \
                    any(str(['systems', s, 'couplings'])[:-1] in u for u in used):
                continue
            out = [{'op': kind, 's': s, 'n': n, 'how': r.choice(['remove', 'minus', 'name', 'str']),
                    'via': r.choice(['top', 'parent'])}]
            if r.random() < 0.6:
                own = [c for c in sysm.get('couplings', []) if c.get('at') == 'parent' and set(c['leaves']) <= set(ins)]
                leaves = copy.deepcopy([sysm['leaves'][x] for x in ins])
                for lf in leaves:
                    lf.pop('copyof', None)
                out.append({'op': 'addsub', 's': s, 'leaves': leaves, 'inits': [sysm['init'][x] for x in ins],
                            'tree': moved(node(sysm['tree'], n), -min(ins)),
                            'coups': [dict(copy.deepcopy(c), leaves=[x - min(ins) for x in c['leaves']]) for c in own]})
            return out
        if kind == 'addstep' and pro['kind'] == 'qpro' and len(pro['steps']) < 6 and not model.is_open(pro):
            new = G.steps(r, spec, pro['sys'], ids, depth=1, fixed=False, samples=False)[0]
            own = [j for j, st in enumerate(pro['steps']) if st['kind'] not in ('copy', 'hc', 'ref')]
            x = r.random()
            if own and x < 0.5:
                new = {'kind': 'copy' if x < 0.25 else 'hc', 'of': r.choice(own)}
            return [{'op': kind, 'p': p, 'st': new}]
        if kind == 'rmstep' and pro['kind'] == 'qpro' and len(pro['steps']) > 1 and not model.is_open(pro):
            k = len(pro['steps']) - 1
            pre = str(['protocols', p, 'steps', k])[:-1]
            if any(pre in u for u in used) or any(st['kind'] == 'ref' and st['p'] == p for q in spec['protocols']
                                                  for st in G.flat_steps(q)):
                continue
            return [{'op': kind, 'p': p}]
        if kind == 'addup' and pro['kind'] == 'qpro':
            ks = [k for k, st in enumerate(pro['steps']) if st['kind'] == 'free' and not st.get('fixed')]
            ups = G.static_freq_paths(spec, pro['sys'])
            if not ks or not ups:
                continue
            return [{'op': kind, 'p': p, 'k': r.choice(ks), 'up': {'path': r.choice(ups), 'value': G.freq(r),
                                                                  'single': r.random() < 0.5}}]
        if kind == 'adddiss' and pro.get('diss') and not pro.get('default'):
            ks = [k for k in range(len(spec['systems'][pro['sys']]['diss'])) if k not in pro['diss']]
            if not ks:
                continue
            return [{'op': kind, 'p': p, 'k': r.choice(ks)}]
        if kind == 'joinbath' and sysm.get('baths'):
            ks = [(b, k) for b, bath in enumerate(sysm['baths']) for k in range(len(sysm['diss'])) if k not in bath['diss'] and
                  str(['systems', s, 'diss', k, 'temp']) not in used]
            if not ks:
                continue
            b, k = r.choice(ks)
            return [{'op': kind, 's': s, 'b': b, 'k': k}]
        if kind == 'gatesys' and pro['kind'] == 'qpro':
            ks = [(k, j) for k, st in enumerate(pro['steps']) if st['kind'] in ('rot', 'xgate') and not st.get('impl') and
                  not st.get('fixed') for j in range(len(spec['systems'][pro['sys']]['leaves'])) if j not in st['leaves']]
            if not ks:
                continue
            k, j = r.choice(ks)
            return [{'op': kind, 'p': p, 'k': k, 'i': j}]
        if kind == 'gaterm' and pro['kind'] == 'qpro':
            ks = [(k, j) for k, st in enumerate(pro['steps']) if st['kind'] in ('rot', 'xgate') and not st.get('fixed')
                  and len(st['leaves']) > 1 for j in st['leaves']]
            if not ks:
                continue
            k, j = r.choice(ks)
            return [{'op': kind, 'p': p, 'k': k, 'i': j}]
    return []
