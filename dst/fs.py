"""Faulty file access: ``builtins.open``/``io.open`` of chosen paths go through a raw file that fails as planned.

The bytes live in real files of a scratch directory, so code that reads or writes by other means still works (and simply meets no
fault).  A plan maps an absolute path to a list of faults, consumed one per open:

reading   {'kind': 'enoent' | 'eacces' | 'emfile'}            open fails
          {'kind': 'eio', 'at': n}                            the read reaching byte n fails
          {'kind': 'cut', 'at': n}                            the file ends at byte n (another process is writing it)
          {'kind': 'short'}                                   reads return a few bytes at a time (legal, harmless)
writing   {'kind': 'weacces' | 'wenoent'}                     open fails
          {'kind': 'enospc' | 'weio' | 'epipe', 'at': n}      the write reaching byte n stores what fits, the next one fails
          {'kind': 'wshort'}                                  writes store a few bytes at a time (legal, harmless)
          {'kind': 'close', 'at': n}                          closing fails and only n bytes are stored (delayed error of a network file system)
"""
import builtins
import errno
import io
import os

from .seams import STATE

OPEN = builtins.open
HARMLESS = ('short', 'wshort')


class Raw(io.RawIOBase):
    def __init__(self, fs, f, fault, writing):
        self.fs, self.f, self.fault, self.writing = fs, f, fault or {}, writing
        self.pos = 0
        self.failed_close = False

    def readable(self):
        return not self.writing

    def writable(self):
        return self.writing

    def seekable(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def readinto(self, b):
        self.fs.point('read')
        k = self.fault.get('kind')
        n = len(b)
        if k == 'short':
            self.fs.fire(self.fault)
            n = min(n, 7)
        if k == 'cut':
            n = max(0, min(n, self.fault['at'] - self.pos))
            if n == 0:
                self.fs.fire(self.fault)
        if k == 'eio':
            if self.pos >= self.fault['at']:
                self.fs.fire(self.fault)
                raise OSError(errno.EIO, 'Input/output error')
            n = min(n, self.fault['at'] - self.pos)
        data = self.f.read(n)
        b[:len(data)] = data
        self.pos += len(data)
        return len(data)

    def write(self, b):
        self.fs.point('write')
        k = self.fault.get('kind')
        b = bytes(b)
        if k == 'wshort':
            self.fs.fire(self.fault)
            b = b[:7]
        if k in ('enospc', 'weio', 'epipe') and b:
            left = self.fault['at'] - self.pos
            if left <= 0:
                self.fs.fire(self.fault)
                e = {'enospc': errno.ENOSPC, 'weio': errno.EIO, 'epipe': errno.EPIPE}[k]
                raise OSError(e, os.strerror(e))
            b = b[:left]
        self.f.write(b)
        self.f.flush()
        self.pos += len(b)
        return len(b)

    def close(self):
        if not self.closed:
            super().close()
            lost = self.fault.get('kind') == 'close'
            if lost:
                self.f.truncate(min(self.fault.get('at', 0), max(0, self.pos - 1)))
            self.f.close()
            if lost:
                self.fs.fire(self.fault)
                raise OSError(errno.EIO, 'Input/output error')


class FS:
    def __init__(self, root, plan=None, sim=None):
        self.root = os.path.realpath(root)
        self.plan = {k: list(v) for k, v in (plan or {}).items()}
        self.fired = {}
        self.opens = []
        self.sim = sim
        self.byname = []            # (task name, kind) of the faults that fired

    def point(self, what):
        if self.sim is not None and STATE.sim is self.sim:
            self.sim.point('fs-' + what)

    def fire(self, fault):
        if not fault.get('_fired'):
            fault['_fired'] = True
            k = 'fs_' + fault['kind']
            self.fired[k] = self.fired.get(k, 0) + 1
            t = self.sim.current() if self.sim is not None else None
            self.byname.append((t.name if t is not None else None, fault['kind']))
            if self.sim is not None:
                self.sim.ev('fs-fault', fault['kind'])

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not isinstance(file, (str, bytes, os.PathLike)):
            return OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.path.abspath(os.fsdecode(file))
        if not (path == self.root or path.startswith(self.root + os.sep)):
            return OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.point('open')
        writing = any(c in mode for c in 'wax+')
        self.opens.append((path, mode))
        fault = None
        todo = self.plan.get(('w:' if writing else 'r:') + path)
        if todo:
            fault = todo.pop(0)
        k = (fault or {}).get('kind')
        if k in ('enoent', 'eacces', 'emfile', 'weacces', 'wenoent'):
            self.fire(fault)
            e = {'enoent': errno.ENOENT, 'wenoent': errno.ENOENT, 'eacces': errno.EACCES, 'weacces': errno.EACCES, 'emfile': errno.EMFILE}[k]
            raise OSError(e, os.strerror(e), file)
        if '+' in mode:
            return OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        f = OPEN(path, mode.replace('t', '').replace('b', '') + 'b', 0)
        raw = Raw(self, f, fault, writing)
        if buffering == 0 and 'b' in mode:
            return raw
        buf = io.BufferedWriter(raw) if writing else io.BufferedReader(raw)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, encoding=encoding, errors=errors, newline=newline)

    def __enter__(self):
        builtins.open = io.open = self.open
        STATE.fs = self
        return self

    def __exit__(self, *a):
        builtins.open = io.open = OPEN
        STATE.fs = None
