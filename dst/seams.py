"""Seams: every source of nondeterminism or failure the library can meet is routed through a dispatcher that the
simulator owns.  ``install()`` must run before quanguru is imported.  With the hub inactive they pass straight through.
"""
import os
import sys
import warnings

ENV = {'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'MPLBACKEND': 'Agg',
       'PYTHONDONTWRITEBYTECODE': '1'}

_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    os.environ.update(ENV)
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    from .hub import H

    # ---- allocation / numerical routine failures ------------------------------------------------------------
    import scipy.linalg
    import scipy.sparse
    import scipy.sparse.linalg

    def guard(name, orig):
        def wrapper(*a, **k):
            if H.alloc is not None and not H.in_guard:
                w = H.alloc.get('where')
                if w is None or w == name:
                    H.alloc_calls += 1
                    if H.alloc_calls == H.alloc['n']:
                        H.fire('alloc_' + name)
                        raise MemoryError('injected allocation failure in ' + name)
            H.in_guard = True
            try:
                return orig(*a, **k)
            finally:
                H.in_guard = False
        wrapper.__name__ = name
        wrapper.__doc__ = orig.__doc__
        return wrapper
    H.in_guard = False
    scipy.linalg.expm = guard('expm', scipy.linalg.expm)
    scipy.sparse.linalg.expm = guard('expm', scipy.sparse.linalg.expm)
    scipy.sparse.kron = guard('kron', scipy.sparse.kron)

    # ---- process pools --------------------------------------------------------------------------------------
    import multiprocessing
    import multiprocessing.context
    import multiprocessing.pool
    from . import simpool

    realPool = multiprocessing.context.BaseContext.Pool
    realPoolCls = multiprocessing.pool.Pool
    real_cpu = os.cpu_count

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if H.active:
            return simpool.SimPool(processes, initializer, initargs, maxtasksperchild)
        return realPool(self, processes, initializer, initargs, maxtasksperchild)
    multiprocessing.context.BaseContext.Pool = Pool

    def mpPool(processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if H.active:
            return simpool.SimPool(processes, initializer, initargs, maxtasksperchild)
        return realPool(multiprocessing.context._default_context, processes, initializer, initargs, maxtasksperchild)
    multiprocessing.Pool = mpPool

    class PoolCls(realPoolCls):
        def __new__(cls, *a, **k):
            if H.active:
                return simpool.SimPool(*a, **{x: y for x, y in k.items() if x != 'context'})
            return object.__new__(cls)
    PoolCls.__name__ = 'Pool'
    if os.environ.get('DST_PATCH_POOL_CLASS', '1') == '1':
        multiprocessing.pool.Pool = PoolCls

    def cpu_count(*_a):
        return H.cpu if H.active else real_cpu()
    multiprocessing.context.BaseContext.cpu_count = cpu_count
    multiprocessing.cpu_count = cpu_count
    os.cpu_count = cpu_count

    # ---- clock ----------------------------------------------------------------------------------------------
    import datetime as dtm
    import time
    real_time, real_ns = time.time, time.time_ns

    def now():
        return H.clock_read() if (H.active and H.clock_read is not None) else real_time()

    def now_ns():
        return int(H.clock_read() * 1e9) if (H.active and H.clock_read is not None) else real_ns()
    H.clock_read = None
    real_sleep = time.sleep

    def sleep(seconds):
        if H.active and not H.in_worker and H.lib_depth:
            simpool.sleep(seconds)
        else:
            real_sleep(seconds)
    time.sleep = sleep
    time.time = now
    time.time_ns = now_ns

    class datetime(dtm.datetime):
        @classmethod
        def now(cls, tz=None):
            if H.active and H.clock_read is not None:
                return cls.fromtimestamp(H.clock_read(), tz)
            return super().now(tz)

        @classmethod
        def utcnow(cls):
            if H.active and H.clock_read is not None:
                return cls.utcfromtimestamp(H.clock_read())
            return super().utcnow()

        @classmethod
        def today(cls):
            return cls.now()
    dtm.datetime = datetime

    # ---- randomness the library might use for names ----------------------------------------------------------
    from . import simfs
    simfs.install()


def load():
    """Import the library under test from /repo/src of the current tree."""
    install()
    src = os.environ.get('DST_REPO', '/repo') + '/src'
    if src not in sys.path:
        sys.path.insert(0, src)
    import quanguru
    assert os.path.realpath(quanguru.__file__).startswith(os.path.realpath(src)), quanguru.__file__
    return quanguru
