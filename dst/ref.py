"""Reference executions: the same library code in a pristine process that has no history.

``RefServer`` is forked before the case builds anything.  Every request is executed in a fork of that pristine process,
so a reference execution shares no object, no module state and no name counter with the session under test.
"""
import os
import pickle
import signal
import struct
import sys
import traceback

from .hub import H


class RefError(Exception):
    """The library failed in a reference execution."""


def _read(fd, n):
    out = b''
    while len(out) < n:
        got = os.read(fd, min(1 << 20, n - len(out)))
        if not got:
            raise EOFError
        out += got
    return out


def send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack('<Q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def recv(fd):
    (n,) = struct.unpack('<Q', _read(fd, 8))
    return pickle.loads(_read(fd, n))


def in_fork(fn, *args):
    """Run fn(*args) in a fork and return its (picklable) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = (True, fn(*args))
            except BaseException as e:  # pylint: disable=broad-except
                res = (False, (type(e).__name__, str(e)[:300], is_lib(e), traceback.format_exc()[-1500:]))
            send(w, res)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        ok, val = recv(r)
    except EOFError:
        ok, val = False, ('Died', 'reference process died', False, '')
    os.close(r)
    os.waitpid(pid, 0)
    return ok, val


def is_lib(e):
    """Whether an exception was raised from inside the library under test."""
    src = os.path.realpath(os.environ.get('DST_REPO', '/repo') + '/src/quanguru')
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(src):
            return True
        tb = tb.tb_next
    return False


class RefServer:
    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                while True:
                    try:
                        mod, name, args = recv(r1)
                    except EOFError:
                        break
                    __import__(mod)
                    send(w2, in_fork(getattr(sys.modules[mod], name), *args))
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def call(self, fn, *args):
        """The result of fn(*args) in a pristine process; RefError if the library fails there."""
        send(self.w, (fn.__module__, fn.__name__, args))
        ok, val = recv(self.r)
        if ok:
            return val
        name, msg, lib, tb = val
        if lib or name in ('RefError',):
            raise RefError('%s: %s' % (name, msg))
        if name in ('KeyError', 'IndexError', 'TypeError', 'ValueError', 'AttributeError'):
            raise RefError('what the library returned cannot be used: %s: %s' % (name, msg))
        raise RuntimeError('reference execution failed in the harness: %s: %s\n%s' % (name, msg, tb))

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def fresh_hub():
    H.reset()
    H.active = True
