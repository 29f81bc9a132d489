"""C15: what a simulation contains decides what it computes."""
import copy

from .. import edits, gen as G, model
from ..session import HarnessError, Session, Violation, lib, same, short
from .runs import _q, apply_ops_to_spec, fault_alloc, features, param_edit, parallel_op

BAD = ('rmsys', 'rmsys_name', 'other_system', 'no_system', 'not_protocol', 'sweepkey', 'no_attribute_mix', 'type')


def groups_ok(spec):
    groups = []
    for sw in spec.get('sweeps', []):
        if sw.get('comb') or not groups:
            groups.append(len(sw['values']))
        elif groups[-1] != len(sw['values']):
            return False
    return True


def points_of(spec):
    n = 1
    for k in model.points(spec)[0]:
        n *= k
    return n


def more_sweeps(r, spec):
    """Sweeps of protocols, of quantum systems by themselves, and of several objects at once."""
    out = []
    for _ in range(r.choice([1, 1, 2])):
        n = r.choice([1, 2, 2, 3])
        x = r.random()
        if x < 0.35:
            ps = [p for p, pro in enumerate(spec['protocols']) if not pro.get('default')]
            if not ps:
                continue
            s = spec['protocols'][r.choice(ps)]['sys']
            ps = [p for p in ps if spec['protocols'][p]['sys'] == s]
            ps = r.sample(ps, r.randint(1, len(ps)))
            sysm = spec['systems'][s]
            paths = [['protocols', p, 'init'] for p in ps]
            vals = [[G.leaf_init(r, lf['dim'], False) for lf in sysm['leaves']] if sysm['comp']
                    else G.leaf_init(r, sysm['leaves'][0]['dim'], False) for _ in range(n)]
            for p in ps:
                spec['protocols'][p].setdefault('init', vals[0])
            sw = {'paths': paths, 'values': vals}
        elif x < 0.8:
            ss = [s for s, sysm in enumerate(spec['systems']) if not sysm['leaves'][0]['terms'][0].get('td')]
            if not ss:
                continue
            ss = r.sample(ss, r.randint(1, len(ss)))
            sw = {'paths': [['systems', s, 'leaves', 0, 'terms', 0, 'freq'] for s in ss], 'top': True,
                  'values': [G.freq(r) for _ in range(n)]}
        else:
            ss = list(range(len(spec['systems'])))
            s = r.choice(ss)
            sysm = spec['systems'][s]
            sw = {'paths': [['systems', s, 'init']],
                  'values': [[G.leaf_init(r, lf['dim'], False) for lf in sysm['leaves']] if sysm['comp']
                             else G.leaf_init(r, sysm['leaves'][0]['dim'], False) for _ in range(n)]}
        sw['style'] = r.choice(['kw', 'late'])
        sw['comb'] = True
        used = {str(p) for w in spec['sweeps'] + out + spec.get('tdsweeps', []) for p in w['paths']}
        if not any(str(p) in used for p in sw['paths']):
            out.append(sw)
    return out


def allowed(spec):
    if not model.live(spec) or not groups_ok(spec) or points_of(spec) > 12:
        return False
    return True


def edit(r, spec):
    """One change of what the simulation contains, or []."""
    own = spec['sim'].get('mode') == 'sys'
    lv = model.live(spec)
    out = [p for p in range(len(spec['protocols'])) if p not in lv]
    kinds = ['rmpro', 'addpro', 'addpro', 'replace', 'replace', 'rmsys', 'rmsys', 'rmsweepof', 'rmsweep', 'addsweep', 'resetpros',
             'newsys', 'newpro', 'bad']
    kinds += ['addtds']
    r.shuffle(kinds)
    if spec.get('tdsweeps') and r.random() < 0.35:
        kinds = ['rmsys'] + kinds
    for k in kinds:
        o = None
        by = r.choice(['obj', 'obj', 'name', 'alias', 'sysname', 'sys'])
        how = r.choice(['addProtocol', 'addSubSys', 'addQSystems'])
        if k == 'rmpro' and len(lv) > 1:
            o = {'p': r.choice(lv), 'by': by}
        elif k == 'addpro' and out:
            p = r.choice(out)
            pro = spec['protocols'][p]
            if pro.get('default') and model.first_live(spec, pro['sys']) is None and not own:
                how = r.choice(['sys', how])
            o = {'p': p, 'how': how}
        elif k == 'replace' and out:
            p = r.choice(out)
            qs = [q for q in lv if spec['protocols'][q]['sys'] == spec['protocols'][p]['sys']]
            other = [q for q in lv if q not in qs]
            if r.random() < 0.2 and other:          # the removed protocol may be that of another system
                qs = other
            if not qs:
                continue
            o = {'p': p, 'q': r.choice(qs), 'by': by}
        elif k == 'rmsys' and not own:
            ss = sorted({spec['protocols'][p]['sys'] for p in lv})
            if len(ss) < 2:
                continue
            o = {'s': r.choice(ss), 'by': r.choice(['obj', 'obj', 'name', 'str']), 'how': r.choice(['removeSubSys', 'removeQSystems'])}
        elif k == 'rmsweepof' and spec.get('sweeps'):
            i = r.randrange(len(spec['sweeps']))
            sw = spec['sweeps'][i]
            if any(p[0] in ('sim', 'aux') for p in sw['paths']):
                continue
            o = {'i': i, 'j': r.randrange(len(sw['paths'])), 'by': r.choice(['obj', 'obj', 'name']), 'how': r.choice(['sim', 'Sweep'])}
        elif k == 'rmsweep' and spec.get('sweeps'):
            o = {'i': r.randrange(len(spec['sweeps']))}
        elif k == 'addsweep':
            sws = more_sweeps(r, copy.deepcopy(spec)) if r.random() < 0.5 else G.sweeps(r, spec, maxpoints=4, maxn=2, keys=('freq', 'init', 'angle'))
            used = edits.used_paths(spec)
            inits = {str(p) for p in used if p.endswith("'init']") or p.endswith("'dim']") or p.endswith("'jValue']")}
            sws = [w for w in sws if not any(str(p) in used for p in w['paths']) and not (
                inits and any(p[-1] == 'init' for p in w['paths'])) and not any(
                    p[0] == 'protocols' and p[-1] == 'init' and spec['protocols'][p[1]].get('init') is None for p in w['paths'])]
            if not sws:
                continue
            o = {'sweep': dict(sws[0], comb=True)}
        elif k == 'resetpros' and not own:
            n = r.randint(1, len(spec['protocols']))
            ps = r.sample(range(len(spec['protocols'])), n)
            # a default protocol comes before the others of its system
            ps.sort(key=lambda p: not spec['protocols'][p].get('default'))
            o = {'in': ps, 'how': how}
        elif k == 'newsys' and not own and len(spec['systems']) < 3:
            if r.random() < 0.5:
                cls, op_ = r.choice([('Qubit', 'Jz'), ('Cavity', 'number'), ('Spin', 'Jz')])
                d = 2 if cls == 'Qubit' else r.randint(2, 4)
                sysm = {'comp': False, 'leaves': [{'cls': cls, 'dim': d, 'terms': [{'op': op_, 'freq': G.freq(r)}]}],
                        'couplings': [], 'init': G.leaf_init(r, d)}
                o = {'system': sysm, 'how': 'create'}
            else:
                o = {'system': G.system(r, maxtotal=4, maxleaves=2), 'how': 'add'}
        elif k == 'newpro' and len(spec['protocols']) < 5:
            ids = [1000 + len(spec['protocols']) * 50]
            s = r.randrange(len(spec['systems']))
            if spec['systems'][s].get('diss'):
                continue
            o = {'pro': G.protocol(r, spec, s, ids, fixed=False, samples=False), 'how': how}
        elif k == 'addtds' and not spec.get('tdsweeps') and r.random() < 0.5:
            new = copy.deepcopy(spec)
            G.add_tds(r, new)
            used = edits.used_paths(spec)
            tds = [t for t in new.get('tdsweeps', []) if not any(str(p) in used for p in t['paths'])]
            if not tds or any(p[0] == 'sim' or p[-1] in ('dim', 'jValue') for sw in spec.get('sweeps', []) for p in sw['paths']):
                continue
            o = {'tds': tds}
        elif k == 'bad':
            return [{'op': 'bad', 'kind': r.choice(BAD)}]
        if o is None:
            continue
        o['op'] = k
        new = apply_ops_to_spec(spec, [o])
        if allowed(new):
            return [o]
    return []


class C15:
    runs = {'quick': 1000, 'thorough': 14000}

    @staticmethod
    def gen(r, tier):
        nsys = r.choice([1, 2, 2, 2, 3])
        spec = G.spec(r, nsys=nsys, npro=r.choice([1, 2, 2]), opened=r.random() < 0.1, maxtotal=5, maxpoints=4, samples=False, fixed=False,
                      maxsteps=3, sweep=r.random() < 0.6, maxn=2, tds=r.random() < 0.2)
        spec.setdefault('sweeps', [])
        if not any(p[-1] in ('dim', 'jValue', 'init') for sw in spec['sweeps'] for p in sw['paths']):
            for sw in more_sweeps(r, spec):
                trial = dict(spec, sweeps=spec['sweeps'] + [sw])
                if allowed(trial):
                    spec['sweeps'].append(sw)
        n = len(spec['protocols'])
        if n > 1 and r.random() < 0.6:          # some protocols are not in the simulation at the start
            keep = [p for p in range(n) if r.random() < 0.6 or spec['protocols'][p].get('default')]
            if spec['sim'].get('mode') == 'sys' and not keep:
                keep = [0]
            spec['in'] = keep or [r.randrange(n)]
        ops = []
        cur = spec
        for _ in range(r.choice([2, 3, 3, 4] if tier == 'quick' else [3, 4, 6, 8])):
            for _ in range(r.choice([0, 1, 1, 2])):
                new = edit(r, cur)
                ops += new
                cur = apply_ops_to_spec(cur, new)
            if r.random() < 0.15:
                new = param_edit(r, cur)
                ops += new
                cur = apply_ops_to_spec(cur, new)
            x = r.random()
            if x < 0.1:
                ops.append({'op': 'run', 'p': False, 'failing': True, 'faults': [fault_alloc(r)]})
            elif x < 0.35:
                ops.append(parallel_op(r))
            else:
                ops.append({'op': 'run', 'p': False})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def execute(case, ctx):
        s = Session(_q(), case['spec'])
        i = 0
        for n, o in enumerate(case['ops']):
            what = 'operation %d (%s)' % (n, o['op'])
            if o['op'] == 'bad':
                bad(s, o, what)
                contents(s, what)
                ctx.checked += 1
                continue
            if o['op'] != 'run':
                try:
                    s.apply(o)
                except HarnessError:
                    raise
                except Exception as e:  # pylint: disable=broad-except
                    if not from_library(e):
                        raise
                    raise Violation('unexpected-error', '%s raised %s' % (what, short(e))) from e
                contents(s, what)
                ctx.sig(o['op'], o.get('by'), o.get('how'), features(s.spec), model.live(s.spec))
                continue
            i += 1
            what = 'run %d (operation %d, p=%s)' % (i, n, o.get('p'))
            before = s.params()
            out = s.run(o)
            ctx.note_run(out)
            if o.get('failing'):
                if out.fired and out.exc is None:
                    raise Violation('swallowed', '%s returned normally although an allocation failed' % what)
                s.reset_swept()
                contents(s, what)
                if out.fired:
                    continue
                s.check_ok(out, what)
            else:
                shape, evs = s.check_run(out, what)
                s.check_trace(out, evs, what)
                s.reset_swept()
                contents(s, what, True)
            after = s.params()
            m = same({k: v for k, v in after.items() if before[k] is not None}, {k: v for k, v in before.items() if v is not None})
            if m:
                raise Violation('params', '%s changed a parameter: %s' % (what, m))
            ctx.checked += 1


def from_library(e):
    tb = e.__traceback__
    while tb is not None:
        if '/quanguru/' in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def contents(s, what, ran=False):
    """The simulation's own account of what it contains."""
    sim = s.w.sim
    lv = model.live(s.spec)
    exp = [s.w.systems[s.spec['protocols'][p]['sys']] for p in lv]
    with lib():
        got = list(sim.qSystems)
    if len(got) != len(exp) or any(a is not b for a, b in zip(got, exp)):
        raise Violation('contents', '%s: the simulation contains the systems %s, expected %s' % (
            what, [str(x.name) for x in got], [str(x.name) for x in exp]))
    keys = list(sim.protocols)
    for k, p in zip(keys, lv):
        name = k if not hasattr(k, 'name') or hasattr(k, 'members') else k.name
        ok = k is s.w.protocols[p]
        if not ok and not ran and s.spec['protocols'][p].get('default'):
            ok = name == s.w.systems[s.spec['protocols'][p]['sys']].name
        if not ok:
            raise Violation('contents', '%s: the simulation has %s where protocol %d belongs' % (what, k, p))
    sws = [list(x.subSys.values()) for x in sim.Sweep.sweeps.values()]
    exps = []
    for sw in s.spec.get('sweeps', []):
        exps.append([s.w.swept(sw, p) for p in sw['paths']])
    if len(sws) != len(exps) or any(len(a) != len(b) or any(x is not y for x, y in zip(a, b)) for a, b in zip(sws, exps)):
        raise Violation('contents', '%s: the simulation sweeps %s, expected %s' % (
            what, [[str(x.name) for x in a] for a in sws], [[str(x.name) for x in a] for a in exps]))
    got = [list(x.subSys.values()) for x in sim.timeDependency.sweeps.values()]
    exp = [[s.w.swept(sw, p) for p in sw['paths']] for sw in s.spec.get('tdsweeps', [])]
    if len(got) != len(exp) or any(len(a) != len(b) or any(x is not y for x, y in zip(a, b)) for a, b in zip(got, exp)):
        raise Violation('contents', '%s: in time, the simulation sweeps %s, expected %s' % (
            what, [[str(x.name) for x in a] for a in got], [[str(x.name) for x in a] for a in exp]))


def bad(s, o, what):
    """An edit that cannot be carried out: it raises and changes nothing."""
    w, sim, q = s.w, s.w.sim, s.q
    kind = o['kind']
    lv = model.live(s.spec)
    stranger = q.Qubit(frequency=1.0)
    calls = {
        'rmsys': lambda: sim.removeQSystems(stranger),
        'rmsys_name': lambda: sim.removeSubSys('no such system'),
        'other_system': lambda: sim.addProtocol(q.freeEvolution(superSys=stranger), system=w.systems[0]),
        'no_system': lambda: sim.addProtocol(q.freeEvolution()),
        'not_protocol': lambda: sim.addProtocol('text'),
        'sweepkey': lambda: sim.Sweep.createSweep(system=w.systems[0], sweepKey=5, sweepList=[1, 2]),
        'no_attribute_mix': lambda: sim.Sweep.createSweep(system=[w.systems[0], q.Simulation()], sweepKey='initialState', sweepList=[0, 0]),
        'type': lambda: sim.addSubSys(5),
    }
    if kind == 'no_attribute_mix' and not hasattr(w.systems[0], 'initialState'):
        return
    try:
        with lib():
            calls[kind]()
    except Exception:  # pylint: disable=broad-except
        from ..hub import H
        H.lib_depth = 0
        return
    raise Violation('accepted', '%s: %s was accepted' % (what, kind))
