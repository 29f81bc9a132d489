"""File-system seam: calls below a scratch root are counted, may be delayed (other savers run first), and may fail.

``H.fs`` is None except in the save/load workloads.  A fault is a dict
  {'op': 'open'|'mkdir'|'write'|'close'|'read'|'rename'|'any', 'n': k-th such call, 'err': errno name | 'short' | 'eintr' | 'crash'}
or {'op': 'space', 'bytes': N, 'err': 'ENOSPC'} (the disk has N bytes left).
"""
import builtins
import errno
import io
import os

from .hub import H

REAL = {}


class FS:
    def __init__(self, root, faults=(), gate=None):
        self.root = os.path.realpath(root)
        self.faults = [dict(f) for f in faults]
        self.gate = gate              # called before every operation: yields to the scheduler
        self.count = {}
        self.ops = []
        self.bytes = 0
        self.fds = {}
        self.mute = 0

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode()
        p = REAL['realpath'](p)
        return p == self.root or p.startswith(self.root + '/')

    def step(self, op, path=''):
        """One operation is about to happen; returns a fault to apply (not raised here) or None."""
        if self.gate is not None:
            self.gate(op, str(path))
        self.ops.append(op)
        n = self.count[op] = self.count.get(op, 0) + 1
        a = self.count['any'] = self.count.get('any', 0) + 1
        for f in self.faults:
            if f.get('used') or f['op'] not in (op, 'any'):
                continue
            if (a if f['op'] == 'any' else n) == f['n']:
                if f['err'] in ('short', 'eintr') and op != 'write':
                    continue
                f['used'] = True
                H.fire('fs_%s_%s' % (op, f['err']))
                if f['err'] == 'crash':
                    if op == 'write':
                        return f
                    os._exit(77)
                if f['err'] in ('short', 'eintr'):
                    return f
                num = getattr(errno, f['err'])
                raise OSError(num, os.strerror(num) + ' (injected)', str(path))
        return None


class FaultRaw(io.RawIOBase):
    """Unbuffered file under fault injection."""

    def __init__(self, fd, path, readable, writable):
        super().__init__()
        self.fd, self.path, self._r, self._w = fd, path, readable, writable
        self.name = path
        self.mode = 'rb+' if readable and writable else ('wb' if writable else 'rb')

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        os.ftruncate(self.fd, size)
        return size

    def readinto(self, b):
        if H.fs is not None:
            H.fs.step('read', self.path)
        data = os.read(self.fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        data = bytes(b)
        fs = H.fs
        if fs is not None:
            f = fs.step('write', self.path)
            if f is not None:
                if f['err'] == 'short':
                    data = data[:max(1, len(data) // 3)]
                elif f['err'] == 'eintr':
                    raise InterruptedError(errno.EINTR, 'injected')
                elif f['err'] == 'crash':
                    os.write(self.fd, data[:len(data) // 2])     # torn write, then the process is gone
                    os._exit(77)
            for f in fs.faults:
                if f['op'] == 'space' and fs.bytes + len(data) > f['bytes']:
                    H.fire('fs_space_ENOSPC')
                    room = f['bytes'] - fs.bytes
                    if room > 0:
                        n = os.write(self.fd, data[:room])
                        fs.bytes += n
                        return n
                    raise OSError(errno.ENOSPC, 'No space left on device (injected)', self.path)
        n = os.write(self.fd, data)
        if fs is not None:
            fs.bytes += n
        return n

    def close(self):
        if not self.closed:
            try:
                if H.fs is not None and self._w:
                    H.fs.step('close', self.path)
            finally:
                super().close()
                os.close(self.fd)


def install():
    real_open, real_mkdir, real_isdir, real_exists = builtins.open, os.mkdir, os.path.isdir, os.path.exists
    real_osopen, real_replace, real_rename, real_isfile = os.open, os.replace, os.rename, os.path.isfile
    real_link, real_listdir, real_unlink = os.link, os.listdir, os.unlink
    REAL.update(open=real_open, mkdir=real_mkdir, realpath=os.path.realpath, isdir=real_isdir, listdir=real_listdir)
    H.fs = None

    def live(path):
        return H.active and H.fs is not None and not H.fs.mute and H.fs.inside(path)

    def fopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not (H.active and H.fs is not None and not H.fs.mute):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if isinstance(file, int):
            if file not in H.fs.fds:
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            fd, path = file, H.fs.fds[file]
        elif not H.fs.inside(file):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        else:
            path = os.fspath(file)
            flags = os.O_CLOEXEC
            plus = '+' in mode
            kind = [c for c in mode if c in 'rwax']
            if len(kind) != 1:
                raise ValueError('invalid mode: %r' % mode)
            kind = kind[0]
            rw = os.O_RDWR if plus else (os.O_RDONLY if kind == 'r' else os.O_WRONLY)
            flags |= rw
            if kind == 'w':
                flags |= os.O_CREAT | os.O_TRUNC
            elif kind == 'a':
                flags |= os.O_CREAT | os.O_APPEND
            elif kind == 'x':
                flags |= os.O_CREAT | os.O_EXCL
            if opener is not None:
                fd = opener(path, flags)
            else:
                H.fs.step('open', path)
                fd = real_osopen(path, flags, 0o666)
        readable = 'r' in mode or '+' in mode
        writable = any(c in mode for c in 'wax+')
        raw = FaultRaw(fd, str(path), readable, writable)
        binary = 'b' in mode
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else 8192
        if readable and writable:
            buf = io.BufferedRandom(raw, size)
        elif writable:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=buffering == 1)

    def mkdir(path, *a, **k):
        if live(path):
            H.fs.step('mkdir', path)
        return real_mkdir(path, *a, **k)

    def osopen(path, flags, mode=0o777, **k):
        if not isinstance(path, int) and live(path):
            H.fs.step('open', path)
            fd = real_osopen(path, flags, mode, **k)
            H.fs.fds[fd] = os.fspath(path)
            return fd
        return real_osopen(path, flags, mode, **k)

    def stat_like(name, real):
        def wrapper(path):
            if not isinstance(path, int) and live(path):
                H.fs.step(name, path)
            return real(path)
        return wrapper

    def two(name, real):
        def wrapper(src, dst, *a, **k):
            if live(dst):
                H.fs.step(name, dst)
            return real(src, dst, *a, **k)
        return wrapper

    def listdir(path='.'):
        if not isinstance(path, int) and live(path):
            H.fs.step('stat', path)
        return real_listdir(path)

    def unlink(path, *a, **k):
        if live(path):
            H.fs.step('unlink', path)
        return real_unlink(path, *a, **k)
    builtins.open = fopen
    io.open = fopen
    os.mkdir = mkdir                 # os.makedirs and pathlib go through os.mkdir
    os.open = osopen
    os.path.isdir = stat_like('stat', real_isdir)
    os.path.exists = stat_like('stat', real_exists)
    os.path.isfile = stat_like('stat', real_isfile)
    os.replace = two('rename', real_replace)
    os.rename = two('rename', real_rename)
    os.link = two('rename', real_link)
    os.listdir = listdir
    os.unlink = os.remove = unlink
