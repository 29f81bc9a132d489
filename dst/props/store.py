"""C07: saves under file-system faults and crashes.  C08: concurrent savers choosing their own file names."""
import errno
import numbers
import os
import select
import shutil
import signal
import socket
import sys
import tempfile

import numpy as np

from .. import gen as G
from .. import simfs
from ..hub import H
from ..prng import rng
from ..ref import in_fork, is_lib, recv, send
from ..session import HarnessError, Session, Violation, short
from .runs import _q, parallel_op, param_edit

SPECIAL = [0.0, -0.0, 1.0, 0.1 + 0.2, 1 / 3, 3.141592653589793, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
           -1e-300, 123456789.123456789, 1e22, -2.5e-7, 0.1, 1e16, 9007199254740993.0]


# ---- data -----------------------------------------------------------------------------------------------------------

def number(r, dtype):
    if dtype == 'int':
        return r.choice([0, 1, -1, 7, 2 ** 31, -2 ** 40, r.randint(-10 ** 6, 10 ** 6)])
    x = r.choice(SPECIAL) if r.random() < 0.3 else r.uniform(-1, 1) * 10 ** r.randint(-12, 12)
    if dtype == 'mixed' and r.random() < 0.4:
        return r.randint(-9, 9)
    if dtype in ('complex', 'pycomplex'):
        y = r.choice(SPECIAL) if r.random() < 0.2 else r.uniform(-1, 1) * 10 ** r.randint(-12, 12)
        return np.complex128(complex(x, y)) if dtype == 'complex' else complex(x, y)
    if dtype == 'np':
        return np.float64(x)
    return float(x)


def make(d):
    """(data as given to the library, rows as plain numbers)"""
    r = rng('data', d['seed'])
    shape = list(d['shape'])
    rows = [[number(r, d['dtype']) for _ in range(n)] for n in shape]
    kind = d['kind']
    if kind == 'flat':
        return rows[0], [rows[0]]
    if kind == 'flattuple':
        return tuple(rows[0]), [rows[0]]
    if kind == 'nd1':
        return np.array(rows[0]), [list(np.array(rows[0]))]
    if kind == 'nd2':
        a = np.array(rows)
        return a, [list(x) for x in a]
    if kind == 'ndlist':
        return [np.array(x) for x in rows], [list(np.array(x)) for x in rows]
    if kind == 'tuples':
        return [tuple(x) for x in rows], rows
    if kind == 'tuple2':
        return tuple(list(x) for x in rows), rows
    return rows, rows


def data_spec(r, big=False):
    kind = r.choice(['flat', 'nested', 'nested', 'nested', 'nd1', 'nd2', 'ndlist', 'tuples', 'flattuple', 'tuple2'])
    dtype = r.choice(['float', 'float', 'float', 'np', 'int', 'complex', 'pycomplex', 'mixed'])
    if kind in ('flat', 'nd1', 'flattuple'):
        shape = [r.choice([1, 2, 3, 10, 900 if big else 20])]
    elif kind == 'nd2':
        shape = [r.choice([1, 2, 5, 400 if big else 4])] * r.choice([1, 2, 3, 11])
    else:
        n = r.choice([1, 2, 3, 12])
        shape = [r.choice([1, 2, 3, 5, 300 if big else 6]) for _ in range(n)]
        if r.random() < 0.25:     # a sweep of the step size may leave no value for a point
            shape[r.randrange(n)] = 0
    return {'kind': kind, 'dtype': dtype, 'shape': shape, 'seed': r.randrange(1 << 30)}


UNSUPPORTED = [None, 'obj', 'deep', 'dict', 'scalarrow', 'empty']


def bad_data(kind):
    """Data a CSV file of numbers cannot represent."""
    return {None: [[1.0, None], [2.0, 3.0]], 'obj': [1.0, object()], 'deep': [[[1.0, 2.0], [3.0]], [[4.0], [5.0]]],
            'dict': [{'a': 1.0}, {'a': 2.0}], 'scalarrow': [[1.0, 2.0], 3.0], 'empty': []}[kind]


def parse(text):
    """Independent reader: rows of numbers."""
    rows = []
    lines = text.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    for ln in lines:
        ln = ln.rstrip('\r')
        row = []
        for cell in ln.split(',') if ln else []:
            cell = cell.strip('"')
            try:
                row.append(float(cell))
            except ValueError:
                row.append(complex(cell))
        rows.append(row)
    return rows


def equal_rows(got, exp):
    if len(got) != len(exp):
        return '%d rows, expected %d' % (len(got), len(exp))
    for i, (a, b) in enumerate(zip(got, exp)):
        if len(a) != len(b):
            return 'row %d has %d numbers, expected %d' % (i, len(a), len(b))
        for j, (x, y) in enumerate(zip(a, b)):
            x, y = complex(x), complex(y)
            if x != y and not (x != x and y != y):
                return 'number %d of row %d is %s, expected %s' % (j, i, x, y)
    return None


def text_of(path):
    with simfs.REAL['open'](path, encoding='utf-8', newline='') as f:
        return f.read()


# ---- results of a simulation ----------------------------------------------------------------------------------------

class Unsupported(Exception):
    pass


def islist(x):
    return isinstance(x, (list, tuple, np.ndarray))


def leaves(v):
    """The files a nested result is divided into: [rows], in the order of the sweep points."""
    if not islist(v) or len(v) == 0:
        raise Unsupported
    if islist(v[0]):
        if len(v[0]) == 0:
            raise Unsupported
        if islist(v[0][0]):
            out = []
            for x in v:
                out += leaves(x)
            return out
        rows = [list(x) for x in v]
    else:
        rows = [list(v)]
    for row in rows:
        if not all(isinstance(x, (numbers.Number, str)) for x in row):     # handed-out states, for example
            raise Unsupported
    return [rows]


def results_of(s):
    """[(owner's naming prefix, key, value)] of everything there is to save, and None entries for what cannot be saved."""
    out = []
    for name, q in s.w.sim.qRes.allResults.items():
        if len(q.resultsDict) > 0:
            for key, val in q.resultsDict.items():
                out.append((name, key, val))
    return out


# ---- fault generation -----------------------------------------------------------------------------------------------

def fs_fault(r, crash=True):
    x = r.random()
    if x < 0.22:
        return {'op': 'write', 'n': r.choice([1, 1, 2, 3]), 'err': r.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG'])}
    if x < 0.36:
        return {'op': 'space', 'bytes': r.choice([0, 1, 7, 40, 500, 9000]), 'err': 'ENOSPC'}
    if x < 0.50:
        return {'op': 'open', 'n': r.choice([1, 1, 2, 3]), 'err': r.choice(['EACCES', 'EMFILE', 'ENOSPC', 'EROFS', 'EINTR'])}
    if x < 0.60:
        return {'op': 'close', 'n': r.choice([1, 1, 2, 3]), 'err': r.choice(['EIO', 'ENOSPC', 'EDQUOT'])}
    if x < 0.68:
        return {'op': 'mkdir', 'n': 1, 'err': r.choice(['EACCES', 'ENOSPC', 'EROFS'])}
    if x < 0.82:
        return {'op': 'write', 'n': r.choice([1, 1, 2]), 'err': r.choice(['short', 'eintr'])}
    if x < 0.90 or not crash:
        return {'op': 'any', 'n': r.randint(1, 9), 'err': r.choice(['EIO', 'ENOMEM', 'EACCES'])}
    return {'op': r.choice(['any', 'write', 'close', 'open']), 'n': r.randint(1, 5), 'err': 'crash'}


def hard_of(fired):
    """Whether an injected fault must be visible to the caller."""
    return any(v and not k.endswith(('_short', '_eintr')) for k, v in fired.items())


class C07:
    runs = {'quick': 5000, 'thorough': 60000}
    real = 'saveReadCSV.py, _helpers.py and all of quanguru, the csv module, buffered and text I/O layers, a real directory'
    stub = ('the raw file and directory operations (open, mkdir, write, close, read, rename) are wrapped and fail, write '
            'short or end the process on command')
    assumptions = ['process crash only: data handed to the kernel survives (the library never calls fsync and promises '
                   'nothing about power loss)', 'a save that raises or is cut short says nothing about the file of that name']

    @staticmethod
    def gen(r, tier):
        case = {'ops': []}
        ops = case['ops']
        sim = r.random() < 0.35
        if sim:
            sp = G.spec(r, td=False, tds=False, opened=False, maxtotal=4, maxpoints=r.choice([6, 6, 16]), maxsteps=3,
                        sweep=r.random() < 0.75, samples=False)
            for c in sp.get('cbs', []):
                if c['when'] == 'compute' and not c.get('recs'):
                    c['recs'] = [['single', 'x_' + c['owner'], round(r.uniform(.5, 2), 2)]]
            if not any(c.get('recs') for c in sp['cbs']):
                sp['cbs'].append({'owner': 'sim', 'when': 'compute', 'recs': [['single', 'val', 1.3]]})
                seen = set()
                sp['cbs'] = [c for c in reversed(sp['cbs'])
                             if not ((c['owner'], c['when']) in seen or seen.add((c['owner'], c['when'])))][::-1]
            case['spec'] = sp
            ops.append({'op': 'run', 'p': False})
        nq = 0
        for _ in range(r.randint(2, 7)):
            x = r.random()
            f = [fs_fault(r) for _ in range(r.choice([0, 0, 1, 1, 1, 2]))]
            if sim and x < 0.40:
                o = {'op': 'qres', 'dir': 'q%d' % nq, 'faults': f}
                ops.append(o)
                if f and r.random() < 0.7:
                    ops.append(dict(o, faults=[]))
                nq += 1
            elif sim and x < 0.52:
                ops += param_edit(r, case['spec']) if r.random() < 0.4 else []
                ops.append(parallel_op(r) if r.random() < 0.4 else {'op': 'run', 'p': False})
            elif x < 0.86:
                ops.append({'op': 'csv', 'dir': r.choice(['d0', 'd0', 'd1', 'd1', '.', 'd2', 'none']),
                            'name': r.choice(['a', 'a', 'b', 'c.d', 'e 1', None, 3]), 'data': data_spec(r, r.random() < 0.3),
                            'faults': f})
            elif x < 0.92:
                ops.append({'op': 'badcsv', 'dir': r.choice(['d0', 'd1', '.']), 'name': r.choice(['u', 'v', None]),
                            'kind': r.choice(UNSUPPORTED)})
            elif x < 0.94:
                ops.append({'op': 'nodir', 'how': r.choice(['parent', 'file'])})
            elif x < 0.97:
                ops.append({'op': 'wipe', 'dir': r.choice(['d0', 'd1', 'd2'])})
                if r.random() < 0.7:
                    ops.append({'op': 'csv', 'dir': ops[-1]['dir'], 'name': r.choice(['a', 'b', None]),
                                'data': data_spec(r), 'faults': []})
            else:
                ops.append({'op': 'read', 'k': r.randrange(8),
                            'faults': [{'op': r.choice(['read', 'read', 'open']), 'n': r.choice([1, 1, 2]),
                                        'err': r.choice(['EIO', 'EACCES'])}]})
        return case

    @staticmethod
    def execute(case, ctx):
        root = os.path.realpath(tempfile.mkdtemp(prefix='dst-c07-'))
        path0 = sys.path[0]
        try:
            os.mkdir(root + '/none')
            sys.path[0] = root + '/none'
            Store(case, ctx, root).go()
        finally:
            H.fs = None
            sys.path[0] = path0
            shutil.rmtree(root, ignore_errors=True)


class Store:
    def __init__(self, case, ctx, root):
        self.case, self.ctx, self.root = case, ctx, root
        self.saved = {}          # path -> (bytes, rows) of completed saves
        self.limbo = set()       # names of failed or interrupted saves: nothing is promised about them
        self.s = Session(_q(), case['spec']) if 'spec' in case else None
        from quanguru.extensions import saveReadCSV
        self.m = saveReadCSV

    def files(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                out[p] = text_of(p)
        return out

    def attempt(self, o, fn):
        """('ok', value) | ('err', text, OS error?) | ('crash',); faults are armed during the call only."""
        faults = o.get('faults', [])

        def call():
            H.fs = simfs.FS(self.root, faults)
            try:
                return ('ok', fn())
            except Exception as e:  # pylint: disable=broad-except
                if not faults and not is_lib(e):
                    raise
                return ('err', short(e), isinstance(e, OSError))
            finally:
                H.fs = None
        if any(f.get('err') == 'crash' for f in faults):
            def forked():
                H.fired = {}
                return call(), H.fired
            ok, res = in_fork(forked)
            if ok:
                res, fired = res
                for k, v in fired.items():
                    H.fired[k] = H.fired.get(k, 0) + v
                return tuple(res), hard_of(fired)
            if res[0] == 'Died':
                H.fire('fs_crash')
                return ('crash',), True
            raise HarnessError(str(res))
        before = dict(H.fired)
        res = call()
        fired = {k: v - before.get(k, 0) for k, v in H.fired.items() if v != before.get(k, 0)}
        return res, hard_of(fired)

    def intact(self, n, o, now, skip=()):
        for p, (data, _) in self.saved.items():
            if p in skip:
                continue
            if now.get(p) != data:
                raise Violation('earlier-file', 'operation %d (%s): the earlier completed save %s %s' % (
                    n, o['op'], os.path.basename(p), 'is gone' if p not in now else 'has changed'))

    def check_file(self, n, o, path, text, rows, cplx):
        try:
            got = parse(text)
        except ValueError as e:
            raise Violation('saved', 'operation %d (%s): %s does not contain numbers: %s' % (
                n, o['op'], os.path.basename(path), e)) from None
        msg = equal_rows(got, rows)
        if msg:
            raise Violation('saved', 'operation %d (%s) returned normally, but %s: %s' % (
                n, o['op'], os.path.basename(path), msg))
        kw = {'datatype': np.complex128, 'realVal': False} if cplx else {}
        try:
            back = self.m.readCSV(path, **kw)
        except Exception as e:  # pylint: disable=broad-except
            raise Violation('read', 'operation %d (%s): reading %s back raises %s' % (
                n, o['op'], os.path.basename(path), short(e))) from None
        back = [np.ravel(x) for x in back] if isinstance(back, list) else [np.ravel(back)]
        msg = equal_rows([list(x) for x in back], rows)
        if msg:
            raise Violation('read', 'operation %d (%s): reading %s back: %s' % (n, o['op'], os.path.basename(path), msg))
        self.ctx.checked += 1

    def go(self):
        for n, o in enumerate(self.case['ops']):
            getattr(self, 'do_' + o['op'], self.do_other)(n, o)
        now = self.files()
        self.intact(len(self.case['ops']), {'op': 'end'}, now)

    def do_other(self, n, o):
        out = self.s.apply(o)
        if o['op'] == 'run':
            self.ctx.note_run(out)
            if out.exc is not None:
                raise Violation('unexpected-error', 'operation %d: run raised %s' % (n, short(out.exc)))

    def target(self, o):
        return self.root if o['dir'] == '.' else self.root + '/' + o['dir']

    def do_csv(self, n, o):
        data, rows = make(o['data'])
        d = self.target(o)
        arg = None if o['dir'] == 'none' else d
        before = self.files()
        res, hard = self.attempt(o, lambda: self.m.saveCSV(data, path=arg, fileName=o['name']) and None)
        now = self.files()
        explicit = d + '/%s.txt' % o['name'] if o['name'] is not None else None
        if res[0] == 'ok':
            if explicit is not None:
                path = explicit
                if path not in now:
                    raise Violation('saved', 'operation %d (csv) returned normally, but %s does not exist' % (
                        n, os.path.basename(path)))
            else:
                new = [p for p in now if p not in before]
                if len(new) != 1 or os.path.dirname(new[0]) != d:
                    raise Violation('saved', 'operation %d (csv) returned normally, but %d new files were made in the '
                                    'directory' % (n, len(new)))
                path = new[0]
            self.intact(n, o, now, {path})
            extra = [p for p in now if p not in before and p != path]
            if extra:
                raise Violation('saved', 'operation %d (csv) left another file behind' % n)
            self.check_file(n, o, path, now[path], rows, o['data']['dtype'] in ('complex', 'pycomplex'))
            self.saved[path] = (now[path], rows)
            self.limbo.discard(path)
        else:
            if res[0] == 'err' and not hard:
                raise Violation('unexpected-error', 'operation %d (csv) raised %s although nothing failed' % (n, res[1]))
            if explicit is not None:
                self.saved.pop(explicit, None)
                self.limbo.add(explicit)
            self.intact(n, o, now)
            self.ctx.checked += 1
        self.ctx.sig('csv', o['data']['kind'], o['data']['dtype'], o['name'] is None, o['dir'],
                     [(f['op'], f['err']) for f in o.get('faults', [])], res[0])

    def do_wipe(self, n, o):
        """The user removes a directory between two saves."""
        d = self.target(o)
        shutil.rmtree(d, ignore_errors=True)
        for p in [p for p in self.saved if p.startswith(d + '/')]:
            self.saved.pop(p)
        self.limbo = {p for p in self.limbo if not p.startswith(d + '/')}
        H.fire('directory_removed')

    def do_badcsv(self, n, o):
        data = bad_data(o['kind'])
        d = self.target(o)
        before = self.files()
        res, _ = self.attempt(o, lambda: self.m.saveCSV(data, path=d, fileName=o['name']) and None)
        now = self.files()
        self.intact(n, o, now, {d + '/%s.txt' % o['name']})
        if res[0] == 'ok':
            raise Violation('saved', 'operation %d: data that cannot be represented (%s) was saved without an error' % (
                n, o['kind']))
        self.saved.pop(d + '/%s.txt' % o['name'], None)
        self.ctx.checked += 1
        self.ctx.sig('bad', o['kind'], len(now) - len(before))

    def do_nodir(self, n, o):
        if o['how'] == 'parent':
            d = self.root + '/missing/sub'
        else:
            d = self.root + '/afile'
            if not os.path.exists(d):
                with simfs.REAL['open'](d, 'w') as f:
                    f.write('1.0\n')
                self.saved[d] = ('1.0\n', [[1.0]])
        res, _ = self.attempt(o, lambda: self.m.saveCSV([1.0, 2.0], path=d, fileName='z') and None)
        now = self.files()
        self.intact(n, o, now)
        if res[0] == 'ok' and not os.path.isfile(d + '/z.txt'):
            raise Violation('saved', 'operation %d: a save into a directory that cannot be created (%s) returned '
                            'normally' % (n, o['how']))
        if res[0] == 'ok':
            self.saved[d + '/z.txt'] = (now[d + '/z.txt'], [[1.0, 2.0]])
        self.ctx.checked += 1

    def do_read(self, n, o):
        done = sorted(self.saved)
        if not done:
            return
        path = done[o['k'] % len(done)]
        _, rows = self.saved[path]
        cplx = any(isinstance(x, complex) for row in rows for x in row)
        kw = {'datatype': np.complex128, 'realVal': False} if cplx else {}

        def rd():
            back = self.m.readCSV(path, **kw)
            return [list(np.ravel(x)) for x in (back if isinstance(back, list) else [back])]
        res, hard = self.attempt(o, rd)
        if res[0] == 'ok':
            msg = equal_rows(res[1], rows)
            if msg:
                raise Violation('read', 'operation %d: reading %s returned normally: %s' % (n, os.path.basename(path), msg))
        elif not hard:
            raise Violation('read', 'operation %d: reading %s raised %s although nothing failed' % (
                n, os.path.basename(path), res[1]))
        self.intact(n, o, self.files())
        self.ctx.checked += 1

    def do_qres(self, n, o):
        d = self.target(o)
        want = results_of(self.s)
        before = self.files()
        ok = True
        plan = []
        for name, key, val in want:
            try:
                plan.append((str(name), key, leaves(val)))
            except Unsupported:
                ok = False
        res, hard = self.attempt(o, lambda: self.m.saveQResCSV(self.s.w.sim.qRes, path=d) and None)
        now = self.files()
        self.intact(n, o, now, {p for p in self.saved if p.startswith(d + '/')})
        self.ctx.sig('qres', [len(x[2]) for x in plan], [len(x[2][0]) for x in plan],
                     [(f['op'], f['err']) for f in o.get('faults', [])], res[0])
        if res[0] != 'ok':
            if res[0] == 'err' and not hard and ok:
                raise Violation('unexpected-error', 'operation %d (qres) raised %s although nothing failed' % (n, res[1]))
            if not hard and not ok:
                H.probe('unsupported_result_refused')
            for p in [p for p in self.saved if p.startswith(d + '/')]:
                self.saved.pop(p)
            self.ctx.checked += 1
            return
        if not ok:
            raise Violation('saved', 'operation %d (qres) returned normally although a result cannot be represented' % n)
        mine = {p: t for p, t in now.items() if p.startswith(d + '/')}
        cells = {}
        for p in mine:
            try:
                cells[p] = parse(now[p])
            except ValueError:
                raise Violation('saved', 'operation %d (qres): %s does not contain numbers' % (
                    n, os.path.basename(p))) from None
        used = {}
        for name, key, files in plan:
            for k, rows in enumerate(files):
                cand = [p for p in sorted(cells) if named(os.path.basename(p), name, key) and not equal_rows(cells[p], rows)]
                if not place((name, key, k), cand, used, set()):
                    near = [p for p in sorted(cells) if named(os.path.basename(p), name, key) and p not in used]
                    raise Violation('saved', 'operation %d (qres) returned normally, but the values of %s of %s%s are in no '
                                    'file of that name%s' % (
                                        n, key, name, ', part %d' % k if len(files) > 1 else '',
                                        ': ' + equal_rows(cells[near[0]], rows) if near else ''))
        for (name, key, k), p in sorted((w[0], p) for p, w in used.items()):
            rows = dict(((a, b), c) for a, b, c in plan)[(name, key)][k]
            self.check_file(n, o, p, now[p], rows, any(isinstance(v, complex) for row in rows for v in row))
            self.saved[p] = (now[p], rows)
        for name, key, files in plan:        # the parts of one result are told apart by their names, in order
            mine_of = {w[0][2]: p for p, w in used.items() if w[0][:2] == (name, key)}
            got = [cells[p] for p in sorted(mine_of.values())]
            if any(equal_rows(a, b) for a, b in zip(got, files)):
                raise Violation('saved', 'operation %d (qres): the files of %s of %s are not in the order of the sweep' % (
                    n, key, name))
        extra = [x for x in mine if x not in used and x not in before]
        if extra:
            raise Violation('saved', 'operation %d (qres) made files that belong to no result: %s' % (
                n, sorted(os.path.basename(x) for x in extra)[:3]))


def named(fname, owner, key):
    """Whether a file name says it belongs to this result (an index may follow)."""
    return owner in fname and fname[:-4].rstrip('0123456789_-').endswith(key.rstrip('0123456789_-'))


def place(what, cand, used, seen):
    """Augmenting-path matching of expected contents to files; used: file -> (what, its candidates)."""
    for p in cand:
        if p in seen:
            continue
        seen.add(p)
        if p not in used or place(used[p][0], used[p][1], used, seen):
            used[p] = (what, cand)
            return True
    return False


# ---- C08 ------------------------------------------------------------------------------------------------------------

def c08_rows(i, j, size):
    return [[float(i), float(j)], [float(i * 100 + j) + 0.25 * k for k in range(size)]]


class C08:
    runs = {'quick': 9000, 'thorough': 50000}
    real = 'saveReadCSV.py and _helpers.py in forked processes (and threads) writing into one real directory'
    stub = 'clock (time.time, datetime.now) and the order of the file-system operations of all savers, decided by the simulator'
    assumptions = ['file-system operations of different savers are atomic with respect to each other (POSIX open/mkdir/write)',
                   'savers share one machine and file system']

    @staticmethod
    def gen(r, tier):
        n = r.choice([1, 2, 2, 2, 3, 3, 4])
        savers = []
        for _ in range(n):
            jobs = []
            for _ in range(r.choice([1, 1, 2, 3, 4])):
                jobs.append({'size': r.choice([1, 2, 5, 5, 1200]), 'name': r.choice([None] * 5 + ['own']),
                             'dir': r.choice(['arg', 'arg', 'arg', 'none']) if r.random() < 0.4 else 'arg'})
            s = {'jobs': jobs}
            if r.random() < 0.25:
                s['fault'] = r.choice([{'op': 'any', 'n': r.randint(1, 10), 'err': 'crash'},
                                       {'op': 'write', 'n': r.randint(1, 3), 'err': r.choice(['ENOSPC', 'EIO', 'crash'])},
                                       {'op': 'open', 'n': r.randint(1, 3), 'err': r.choice(['EACCES', 'EMFILE'])},
                                       {'op': 'write', 'n': r.randint(1, 3), 'err': 'short'}])
            savers.append(s)
        clock = r.choice(['still', 'still', 'coarse', 'back', 'jump', 'fine', 'minute'])
        case = {'savers': savers, 'clock': clock, 'sched': r.randrange(1 << 30), 'fresh': r.random() < 0.5,
                'threads': r.random() < 0.25 and not any(s.get('fault', {}).get('err') == 'crash' for s in savers),
                'pre': r.choice([0, 0, 0, 1, 2, 3]), 'policy': r.choice(['random', 'random', 'burst', 'lockstep'])}
        if n == 1 and r.random() < 0.6:      # somebody removes the directory between two saves
            for j in savers[0]['jobs'][1:]:
                j['wipe'] = r.random() < 0.5
        if case['threads']:
            for s in savers:
                s.pop('fault', None)
                for j in s['jobs']:
                    j['dir'] = 'arg'
        case['ops'] = []
        return case

    @staticmethod
    def execute(case, ctx):
        root = os.path.realpath(tempfile.mkdtemp(prefix='dst-c08-'))
        try:
            Savers(case, ctx, root).go()
        finally:
            H.fs = None
            shutil.rmtree(root, ignore_errors=True)


class Savers:
    def __init__(self, case, ctx, root):
        self.case, self.ctx, self.root = case, ctx, root
        self.dir = root + '/out'
        self.r = rng('sched', case['sched'])
        self.now = 1_700_000_000.0 + (0.123457 if case['clock'] != 'coarse' else 0.0)
        self.t0 = self.now
        self.pre = {}

    def tick(self):
        m = self.case['clock']
        r = self.r
        if m == 'coarse':
            if r.random() < 0.2:
                self.now += 1.0
        elif m == 'minute':
            if r.random() < 0.05:
                self.now += 60.0
        elif m == 'fine':
            self.now += 1e-6 * r.choice([0, 1, 1, 5])
        elif m == 'back':
            self.now += r.choice([1.0, -1.0, 0.0, 2.0, -2.0])
        elif m == 'jump':
            self.now += r.choice([0.0, 0.0, 1.5, 3600.0, -3600.0, -0.5])
        H.fire('clock_' + m)
        return self.now

    def go(self):
        case = self.case
        if not case['fresh']:
            os.mkdir(self.dir)
            import datetime
            for k in range(case['pre']):     # files of an earlier session, with the time stamps this one will see
                t = self.t0 + k * (1.0 if case['clock'] in ('coarse', 'back') else 0.0)
                stamp = str(datetime.datetime.timestamp(datetime.datetime.fromtimestamp(t)))
                p = self.dir + '/%s%s.txt' % (stamp, '' if k == 0 or case['clock'] in ('coarse', 'back') else '_%d' % k)
                if not os.path.exists(p):
                    with simfs.REAL['open'](p, 'w') as f:
                        f.write('0.5,%d\n' % k)
                    self.pre[p] = '0.5,%d\n' % k
        done = self.threads() if case['threads'] else self.processes()
        self.judge(done)

    # ---- schedulers -------------------------------------------------------------------------------------------------
    def pick(self, parked, last):
        p = self.case['policy']
        if p == 'burst' and last in parked and self.r.random() < 0.8:
            return last
        if p == 'lockstep':
            later = [x for x in parked if last is None or x > last]
            return later[0] if later else parked[0]
        return self.r.choice(parked)

    def processes(self):
        socks, pids = [], []
        sys.stdout.flush()
        for i, s in enumerate(self.case['savers']):
            a, b = socket.socketpair()
            pid = os.fork()
            if pid == 0:
                try:
                    a.close()
                    for x in socks:
                        x.close()
                    child_saver(i, s, self.dir, self.root, b.fileno())
                finally:
                    os._exit(0)
            b.close()
            socks.append(a)
            pids.append(pid)
        done = {}
        state = {}
        last = None
        for i in range(len(socks)):
            state[i] = self.get(socks[i])
        log = []
        try:
            while state:
                parked = sorted(state)
                i = self.pick(parked, last)
                last = i
                msg = state[i]
                if msg is None:
                    done.setdefault(i, []).append('dead')
                    H.fire('saver_crash')
                    log.append((i, 'dead'))
                    del state[i]
                    continue
                log.append((i, msg[0] if msg[0] != 'op' else msg[1]))
                if msg[0] == 'end':
                    del state[i]
                    continue
                if msg[0] == 'clock':
                    send(socks[i].fileno(), self.tick())
                elif msg[0] == 'op':
                    send(socks[i].fileno(), None)
                elif msg[0] == 'done':
                    done.setdefault(i, []).append(msg[1])
                    for k, v in msg[2].items():
                        H.fired[k] = H.fired.get(k, 0) + v
                    send(socks[i].fileno(), None)
                state[i] = self.get(socks[i])
                if len(log) > 4000:
                    raise Violation('hang', 'the savers do not come to an end: saver %d has done %d operations' % (
                        i, len([x for x in log if x[0] == i])))
        finally:
            for s in socks:
                s.close()
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(p, 0)
        self.note(log)
        return done

    def get(self, sock):
        ready, _, _ = select.select([sock], [], [], 30)
        if not ready:
            raise Violation('hang', 'a save waits for something that never happens')
        try:
            return recv(sock.fileno())
        except (EOFError, ConnectionResetError):
            return None

    def note(self, log):
        H.sched.extend(log)
        from ..ctx import digest
        self.ctx.schedules.add(digest(log))
        self.ctx.sig('savers', len(self.case['savers']), self.case['clock'], self.case['fresh'], log[:40])

    def threads(self):
        """Savers are threads of one process: exactly one runs at a time, and only between two operations may it change."""
        import threading
        from quanguru.extensions import saveReadCSV
        n = len(self.case['savers'])
        sem = [threading.Semaphore(0) for _ in range(n)]
        back = threading.Semaphore(0)
        where = {}
        ident = {}
        done = {}
        stop = []

        def park(what):
            i = ident.get(threading.get_ident())
            if i is None:
                return
            where[i] = what
            back.release()
            sem[i].acquire()
            if stop:
                raise SystemExit

        def body(i):
            ident[threading.get_ident()] = i
            park('start')
            try:
                for j, job in enumerate(self.case['savers'][i]['jobs']):
                    try:
                        if job.get('wipe'):
                            H.fs.mute += 1
                            shutil.rmtree(self.dir, ignore_errors=True)
                            H.fs.mute -= 1
                        saveReadCSV.saveCSV(c08_rows(i, j, job['size']), path=self.dir, fileName=own(job, i, j))
                        done.setdefault(i, []).append('ok')
                    except Exception as e:  # pylint: disable=broad-except
                        done.setdefault(i, []).append('err ' + short(e))
            finally:
                where[i] = None
                back.release()

        def clock():
            park('clock')
            return self.tick()
        H.fs = simfs.FS(self.root, [], gate=lambda op, path: park(op))
        H.clock_read = clock
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        log = []
        try:
            for t in ts:
                t.start()
                if not back.acquire(timeout=30):
                    raise HarnessError('a saver thread did not start')
            last = None
            while True:
                parked = sorted(i for i in where if where[i] is not None)
                if not parked:
                    break
                last = self.pick(parked, last)
                log.append((last, where[last]))
                sem[last].release()
                if not back.acquire(timeout=30):
                    raise Violation('hang', 'a save waits for something that never happens')
                if len(log) > 4000:
                    raise Violation('hang', 'the savers do not come to an end')
        finally:
            stop.append(1)
            for s in sem:
                s.release()
            H.clock_read = None
            H.fs = None
        H.fire('threads')
        self.note(log)
        return done

    # ---- judgement --------------------------------------------------------------------------------------------------
    def judge(self, done):
        exp = {}
        lost = {True: 0, False: 0}          # saves that may have left a part of a file, by whether a directory was named
        for i, s in enumerate(self.case['savers']):
            res = done.get(i, [])
            hard = s.get('fault', {}).get('err') not in (None, 'short')
            allowed = 1 if hard else 0
            for j, job in enumerate(s['jobs']):
                if job.get('wipe') and j < len(res):
                    exp = {k: v for k, v in exp.items() if self.case['savers'][i]['jobs'][k[1]]['dir'] == 'none'}
                    lost[True] = 0
                    self.pre = {}
                    H.fire('directory_removed')
                if j >= len(res) or res[j] == 'dead':
                    if not (hard and s['fault']['err'] == 'crash'):
                        raise HarnessError('saver %d stopped without being told to: %s' % (i, res))
                    lost[job['dir'] != 'none'] += 1
                    break
                if res[j] != 'ok':
                    if not allowed:
                        raise Violation('saver-failed', 'save %d of saver %d raised %s' % (j, i, res[j][4:]))
                    allowed = 0
                    lost[job['dir'] != 'none'] += 1
                    continue
                exp[(i, j)] = c08_rows(i, j, job['size'])
        found = {}
        odd = []
        for d in (self.dir, self.root + '/none'):
            for name in sorted(simfs.REAL['listdir'](d)) if simfs.REAL['isdir'](d) else []:
                p = d + '/' + name
                if p in self.pre:
                    if text_of(p) != self.pre[p]:
                        raise Violation('overwritten', 'the file of an earlier session was overwritten')
                    continue
                try:
                    rows = parse(text_of(p))
                    key = (int(rows[0][0]), int(rows[0][1]))
                except (ValueError, IndexError):
                    odd.append(name)
                    continue
                if key in exp and equal_rows(rows, exp[key]) is None:
                    found.setdefault(key, []).append(p)
                else:
                    odd.append(name)
        for p in self.pre:
            if not os.path.exists(p):
                raise Violation('overwritten', 'the file of an earlier session is gone')
        for key in sorted(exp):
            if key not in found:
                raise Violation('lost', 'save %d of saver %d returned normally, but its data is in no file' % (key[1], key[0]))
            if len(found[key]) > 1:
                raise Violation('saved-twice', 'save %d of saver %d is in %d files' % (key[1], key[0], len(found[key])))
        lost = sum(lost.values())
        if len(odd) > lost:
            raise Violation('damaged', '%d files are neither complete nor of a failed save' % (len(odd) - lost))
        self.ctx.checked += len(exp)


def own(job, i, j):
    return None if job['name'] is None else '%s_%d_%d' % (job['name'], i, j)


def child_saver(i, s, d, root, fd):
    from quanguru.extensions import saveReadCSV
    H.reset()
    H.active = True
    sys.path[0] = root + '/none'

    def ask(msg):
        send(fd, msg)
        return recv(fd)

    def gate(op, path):
        ask(('op', op))

    H.clock_read = lambda: ask(('clock',))
    ask(('op', 'start'))
    H.fs = simfs.FS(root, [s['fault']] if s.get('fault') else [], gate=gate)
    for j, job in enumerate(s['jobs']):
        H.fired = {}
        if job.get('wipe'):
            H.fs.mute += 1
            shutil.rmtree(d, ignore_errors=True)
            H.fs.mute -= 1
        try:
            saveReadCSV.saveCSV(c08_rows(i, j, job['size']), path=None if job['dir'] == 'none' else d, fileName=own(job, i, j))
            res = 'ok'
        except Exception as e:  # pylint: disable=broad-except
            res = 'err ' + short(e)
        H.fs.mute += 1
        ask(('done', res, dict(H.fired)))
        H.fs.mute -= 1
    send(fd, ('end',))
