"""A process pool under the control of the simulator.

The workers are real forked processes running the library's real code on really pickled tasks, but they are parked and
released one at a time: which idle worker takes the next task, which running worker finishes next, and which fault
strikes between two such events is a decision of the run's seeded scheduler.  The semantics follow
``multiprocessing.pool.Pool`` (CPython 3.12): one FIFO task queue, chunking of ``map``, pickling of each chunk on its
own, ``map`` waiting for every chunk and raising the first failure in completion order, a worker surviving ``Exception``
and dying on anything else (its task is then lost, and the replacement worker never gets it).
"""
import gc
import itertools
import multiprocessing
import os
import pickle
import signal
import struct
import weakref
from multiprocessing.pool import MaybeEncodingError, ThreadPool  # noqa: F401
from multiprocessing.reduction import ForkingPickler

from .hub import H, SimHang

MAX_EVENTS = 20000
MAX_WAITS = 200


def _dumps(obj):
    return bytes(ForkingPickler.dumps(obj))


def _send(fd, data):
    data = struct.pack('<Q', len(data)) + data
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _recvn(fd, n):
    out = b''
    while len(out) < n:
        got = os.read(fd, min(1 << 20, n - len(out)))
        if not got:
            raise EOFError
        out += got
    return out


def _recv(fd):
    (n,) = struct.unpack('<Q', _recvn(fd, 8))
    return _recvn(fd, n)


def mapstar(args):
    return list(map(*args))


def starmapstar(args):
    return list(itertools.starmap(args[0], args[1]))


class _Worker:
    def __init__(self, pool, num):
        self.pool, self.num = pool, num
        self.task = None
        self.alive = True
        self.code = None
        self.done = 0
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        gc.collect(0)
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self._child(r1, w2)
            finally:
                os._exit(70)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def _child(self, r, w):
        H.in_worker = True
        H.trace = []
        H.fired = {}
        for p in H.pools:
            for wk in p.workers:
                if not wk.alive:
                    continue
                for fd in (getattr(wk, 'w', None), getattr(wk, 'r', None)):
                    if fd is not None:
                        try:
                            os.close(fd)
                        except OSError:
                            pass
        if self.pool.initializer is not None:
            self.pool.initializer(*self.pool.initargs)
        while True:
            try:
                msg = _recv(r)
            except EOFError:
                os._exit(0)
            taskid, payload, die = pickle.loads(msg)
            if die == 'before':
                os._exit(9)
            H.trace = []
            H.fired = {}
            H.probes = {}
            H.steps = 0
            H.point = -1
            H.task = taskid
            try:
                func, args, kwds = pickle.loads(payload)
                try:
                    res = (True, func(*args, **kwds))
                except Exception as e:  # pylint: disable=broad-except
                    e.__traceback__ = None
                    res = (False, e)
                func = args = kwds = None
                try:
                    out = _dumps(res)
                except Exception as e:  # pylint: disable=broad-except
                    out = _dumps((False, MaybeEncodingError(e, res[1])))
            except BaseException as e:  # pylint: disable=broad-except
                # a real worker dies here: KeyboardInterrupt/SystemExit, or a task it cannot unpickle
                _send(w, pickle.dumps(('dead', type(e).__name__ + ': ' + str(e)[:200], H.trace, H.fired, H.probes,
                                       H.steps)))
                os._exit(1)
            if die == 'after':
                os._exit(9)
            _send(w, pickle.dumps(('done', out, H.trace, H.fired, H.probes, H.steps)))

    def is_alive(self):
        return self.alive

    @property
    def exitcode(self):
        return None if self.alive else (self.code if self.code is not None else 0)

    @property
    def name(self):
        return 'ForkPoolWorker-%d' % (self.num + 1)

    def execute(self, taskid, payload, die=None):
        try:
            _send(self.w, pickle.dumps((taskid, payload, die)))
            msg = pickle.loads(_recv(self.r))
        except (EOFError, OSError):
            return ('dead', 'killed', [], {}, {}, 0)
        return msg

    def close(self, kill=False):
        if not self.alive:
            return
        self.alive = False
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        os.close(self.w)
        os.close(self.r)
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


class SimResult:
    """AsyncResult / MapResult."""

    def __init__(self, pool, ntasks, mapped, callback=None, error_callback=None):
        self.pool, self.left, self.mapped = pool, ntasks, mapped
        self.parts = [None] * ntasks
        self.success = True
        self.error = None
        self.polls = 0
        self.keep = pool.handle()         # a pending result keeps its pool
        self.callback, self.error_callback = callback, error_callback
        if ntasks == 0:
            self.parts = []
            self.keep = None

    def put(self, i, ok, val):
        self.left -= 1
        if self.left == 0:
            self.keep = None
        self.parts[i] = (ok, val)
        if not ok and self.success:
            self.success = False
            self.error = val
        if self.left == 0:
            if self.success and self.callback:
                self.callback(self.value())
            if not self.success and self.error_callback:
                self.error_callback(self.error)

    def ready(self):
        if self.left > 0:
            self.polls += 1
            if self.polls > 1:           # polled again without waiting: time passes all the same
                self.pool._tick(0.001)
        return self.left <= 0

    def _ready(self):
        return self.left <= 0

    def successful(self):
        if not self._ready():
            raise ValueError('not ready')
        return self.success

    def wait(self, timeout=None):
        self.polls = 0
        if timeout is None:
            self.pool._drive(self._ready)
        elif not self._ready():
            self.pool._tick(timeout)

    def value(self):
        if self.mapped:
            return [x for ok, part in self.parts for x in part]
        return self.parts[0][1]

    def get(self, timeout=None):
        if timeout is not None:
            self.wait(timeout)
            if not self._ready():
                raise multiprocessing.TimeoutError
        self.pool._drive(self._ready)
        if not self.success:
            raise self.error
        return self.value()


def sleep(seconds):
    """time.sleep of the process under test: the simulated pools get that time."""
    H.clock += seconds
    for p in H.pools:
        if p.state != 'TERMINATE' and not p.joined and (p.queue or any(w.task for w in p.workers if w.alive)):
            p._tick(seconds)


class SimPool:
    """What the caller holds. As with the real Pool, dropping the last reference to it terminates its workers."""

    def __init__(self, *args, **kwargs):
        core = _Core(*args, **kwargs)
        self.__dict__['core'] = core
        core.handle = weakref.ref(self)
        weakref.finalize(self, _collected, core, os.getpid()).atexit = False

    def __getattr__(self, name):
        return getattr(self.__dict__['core'], name)

    def __setattr__(self, name, value):
        setattr(self.core, name, value)

    def __enter__(self):
        self.core._check()
        return self

    def __exit__(self, *a):
        self.core.terminate()

    def __reduce__(self):
        raise NotImplementedError('pool objects cannot be passed between processes or pickled')


def _collected(core, pid):
    if pid == os.getpid() and not core.joined and core.state != 'TERMINATE':
        H.sched.append(('collected', core.id))
        core.terminate()


class _Core:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = H.cpu
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        if initializer is not None and not callable(initializer):
            raise TypeError('initializer must be a callable')
        self.asked = processes
        for f in H.faults:
            if f['kind'] == 'pool_create_fail' and not f.get('used'):
                f['used'] = True
                H.fire('pool_create_fail')
                raise OSError(f.get('errno', 11), 'injected: cannot create worker process')
        self._processes = processes
        self.initializer, self.initargs = initializer, initargs
        self.maxtasks = maxtasksperchild
        self.state = 'RUN'
        self.joined = False
        self.queue = []           # (result, index, payload or exception)
        self.handed = []          # (task number, args) in hand-out order
        self.workers = []
        self.events = 0
        self.completed = 0
        self.ntask = 0
        self.idle_waits = 0
        self.owner = 'library' if H.lib_depth else 'caller'
        self.handle = lambda: None
        H.pools.append(self)
        self.id = len(H.pools) - 1
        for i in range(processes):
            self.workers.append(_Worker(self, i))
        H.sched.append(('pool', self.id, processes))

    # ---- submission -------------------------------------------------------------------------------------------
    def _check(self):
        if self.state != 'RUN':
            raise ValueError('Pool not running')

    def _submit(self, res, i, func, args, kwds=None):
        num = self.ntask
        self.ntask += 1
        try:
            payload = _dumps((func, args, kwds or {}))
        except Exception as e:  # pylint: disable=broad-except
            H.probe('unpicklable_task')
            payload = e
        self.queue.append((res, i, num, payload))

    def _map(self, func, iterable, chunksize, mapper, callback=None, error_callback=None):
        self._check()
        if not hasattr(iterable, '__len__'):
            iterable = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(iterable), self._processes * 4)
            if extra:
                chunksize += 1
        if len(iterable) == 0:
            chunksize = 0
        it = iter(iterable)
        batches = []
        while chunksize:
            x = tuple(itertools.islice(it, chunksize))
            if not x:
                break
            batches.append(x)
        res = SimResult(self, len(batches), True, callback, error_callback)
        for i, b in enumerate(batches):
            self._submit(res, i, mapper, ((func, b),))
        return res

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, mapstar).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, chunksize, mapstar, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, starmapstar).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, chunksize, starmapstar, callback, error_callback)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        self._check()
        res = SimResult(self, 1, False, callback, error_callback)
        self._submit(res, 0, func, args, kwds)
        return res

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def _imap(self, func, iterable, chunksize):
        self._check()
        out = []
        it = iter(iterable)
        while True:
            b = tuple(itertools.islice(it, max(1, chunksize)))
            if not b:
                return out
            r = SimResult(self, 1, False)
            self._submit(r, 0, mapstar, ((func, b),))
            out.append(r)

    def imap(self, func, iterable, chunksize=1):
        rs = self._imap(func, iterable, chunksize)
        return (x for r in rs for x in r.get())

    def imap_unordered(self, func, iterable, chunksize=1):
        rs = self._imap(func, iterable, chunksize)

        def gen(rs=rs):
            rs = list(rs)
            while rs:
                self._drive(lambda: any(r._ready() for r in rs))
                done = min((r for r in rs if r._ready()), key=lambda r: r.order)
                rs.remove(done)
                yield from done.get()
        return gen()

    # ---- the scheduler ----------------------------------------------------------------------------------------
    def _drive(self, until):
        while not until():
            self._step()

    def _tick(self, timeout):
        """A wait with a timeout: one scheduler event happens, or, if nothing can, the time passes."""
        if self._stalled():
            H.clock += timeout
            return
        try:
            self._step()
        except SimHang:
            H.clock += timeout
            self.idle_waits += 1
            if self.idle_waits > MAX_WAITS or self.events > MAX_EVENTS:
                raise

    def _stalled(self):
        """Every worker is stopped (machine suspended, very slow callback): waits see only time passing."""
        for f in H.faults:
            if f['kind'] == 'stall' and self.completed >= f['after'] and f.get('spent', 0) < f['ticks']:
                if not f.get('spent'):
                    H.fire('workers_stalled')
                    H.sched.append(('stall', self.id))
                f['spent'] = f.get('spent', 0) + 1
                return True
        return False

    @property
    def _pool(self):
        return [w for w in self.workers if w.alive]

    def _step(self):
        self.events += 1
        if self.events > MAX_EVENTS:
            raise SimHang('scheduler step bound exceeded')
        # failing submissions are answered by the task handler, in queue order
        while self.queue and isinstance(self.queue[0][3], BaseException):
            res, i, num, exc = self.queue.pop(0)
            H.fire('unpicklable')
            res.put(i, False, exc)
            res.order = self.events
            H.sched.append(('reject', self.id, num))
            return
        for f in H.faults:
            if f['kind'] == 'parent_interrupt' and not f.get('used') and self.completed >= f['after']:
                f['used'] = True
                H.fire('parent_interrupt')
                H.sched.append(('interrupt', self.id))
                raise KeyboardInterrupt('injected')
        idle = [w for w in self.workers if w.alive and w.task is None]
        busy = [w for w in self.workers if w.alive and w.task is not None]
        for f in H.faults:
            if f['kind'] == 'idle_death' and not f.get('used') and self.completed >= f['after'] and idle:
                f['used'] = True
                H.fire('idle_worker_death')
                w = idle[f.get('which', 0) % len(idle)]
                H.sched.append(('idle-dead', self.id, w.num))
                w.code = -9
                w.close(kill=True)
                if self.state == 'RUN':
                    self.workers.append(_Worker(self, len(self.workers)))
                return
        opts = ([('assign', w) for w in idle] if self.queue and self.state != 'TERMINATE' else [])
        opts += [('finish', w) for w in busy]
        if not opts:
            raise SimHang('no worker can make progress, %d task(s) outstanding' % len(self.queue))
        pol = H.policy
        if pol == 'breadth':            # hand out as much as possible before anything finishes
            sub = [o for o in opts if o[0] == 'assign'] or opts
        elif pol == 'depth':            # a worker finishes before the next task is handed out
            sub = [o for o in opts if o[0] == 'finish'] or opts
        elif pol == 'stall0':           # worker 0 is stalled: it acts only when nothing else can
            sub = [o for o in opts if o[1].num != 0 or o[0] == 'assign' and o[1].done == 0] or opts
        elif pol == 'single':           # one fast worker does nearly everything
            sub = [o for o in opts if o[1].num == 0] or opts
        else:
            sub = opts
        kind, w = sub[H.choices.choose(len(sub))]
        H.clock += 0.001
        if kind == 'assign':
            w.task = self.queue.pop(0)
            H.sched.append(('assign', self.id, w.num, w.task[2]))
            return
        res, i, num, payload = w.task
        w.task = None
        die = None
        for f in H.faults:
            if f['kind'] == 'worker_death' and f['task'] == num and not f.get('used'):
                f['used'] = True
                die = f.get('when', 'before')
                H.fire('worker_death')
        what, out, trace, fired, probes, steps = w.execute(num, payload, die)
        H.steps += steps
        for k, v in fired.items():
            H.fired[k] = H.fired.get(k, 0) + v
        for k, v in probes.items():
            H.probes[k] = H.probes.get(k, 0) + v
        H.trace.append(('task', num, w.num, trace))
        self.handed.append(num)
        if what == 'dead':
            H.sched.append(('dead', self.id, w.num, num))
            H.probe('worker_died')
            w.code = -9 if out == 'killed' else 1
            w.close()
            if self.state == 'RUN':
                self.workers.append(_Worker(self, len(self.workers)))
            return                                          # the task is lost
        ok, val = pickle.loads(out)
        w.done += 1
        self.completed += 1
        H.sched.append(('finish', self.id, w.num, num, ok))
        res.order = self.events
        res.put(i, ok, val)
        if self.maxtasks and w.done >= self.maxtasks:
            w.close()
            self.workers.append(_Worker(self, len(self.workers)))

    # ---- shutdown ---------------------------------------------------------------------------------------------
    def close(self):
        if self.state == 'RUN':
            self.state = 'CLOSE'

    def terminate(self):
        self.state = 'TERMINATE'
        self.queue = []
        for w in self.workers:
            w.close(kill=True)

    def join(self):
        if self.state == 'RUN':
            raise ValueError('Pool is still running')
        while self.state == 'CLOSE' and (self.queue or any(w.task for w in self.workers if w.alive)):
            self._step()
        for w in self.workers:
            w.close()
        self.joined = True

    def alive_now(self):
        return sum(w.alive for w in self.workers)

    def live(self):
        """Number of workers that would still be alive after the closed pools had all the time they want."""
        if self.state == 'CLOSE':
            self.join()
        return sum(w.alive for w in self.workers)

    def reap(self):
        for w in self.workers:
            w.close(kill=True)
