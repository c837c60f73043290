"""A simulated disk.  Everything opened for writing goes here; nothing the code under test writes reaches the real file system."""
import builtins
import contextlib
import errno
import io
import os

from .core import patched


class Plan(object):
    """One planned fault: kind, at which call, and the exception raised"""

    def __init__(self, kind, k, exc):
        self.kind, self.k, self.exc = kind, k, exc
        self.calls = 0
        self.fired = None

    def hit(self, kind):
        """The exception to raise for this call, if it is the chosen one"""
        if kind != self.kind or self.fired is not None:
            return None
        self.calls += 1
        if self.calls == self.k:
            self.fired = self.make()
            return self.fired
        return None

    def make(self):
        if self.exc == 'interrupt':
            from .faults import SimInterrupt
            return SimInterrupt('simulated interrupt')
        if self.exc == 'memory':
            return MemoryError('simulated allocation failure')
        if self.exc.startswith('E'):
            return OSError(getattr(errno, self.exc), 'simulated: ' + os.strerror(getattr(errno, self.exc)))
        no = {'open': errno.EACCES, 'full': errno.ENOSPC}.get(self.kind, errno.EIO if self.exc == 'error' else errno.ENOSPC)
        return OSError(no, 'simulated: ' + os.strerror(no))


class SimFile(io.BytesIO):
    def __init__(self, fs, path, data=b'', append=False):
        super().__init__(data)
        if append:
            self.seek(0, 2)
        self.fs, self.name = fs, path
        self.mode = 'rb+'
        self.lost = False       # abandoned: the process that had it open died
        fs.handles.append(self)

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def write(self, data):
        data = bytes(data)
        fs = self.fs
        if self.lost:
            return len(data)
        fs.writes += 1
        err = fs.plan and fs.plan.hit('write')
        short = None
        if err:
            short = len(data) // 2
        elif fs.capacity is not None and fs.used() + len(data) > fs.capacity:
            short = max(0, fs.capacity - fs.used())
            err = OSError(errno.ENOSPC, 'simulated: ' + os.strerror(errno.ENOSPC))
            fs.was_full = err
        if err:
            super().write(data[:short])
            self.sync()
            raise err
        n = super().write(data)
        self.sync()
        return n

    def truncate(self, size=None):
        n = super().truncate(size)
        self.sync()
        return n

    def sync(self):
        if self.lost:
            return
        if not self.fs.lazy or self.fs.plan is None or self.fs.plan.kind not in ('close', 'flush'):
            self.fs.files[self.name] = self.getvalue()

    def flush(self):
        if self.closed or self.lost:
            return
        err = self.fs.plan and self.fs.plan.hit('flush')
        if err:
            raise err
        self.fs.files[self.name] = self.getvalue()

    def close(self):
        if self.closed:
            return
        data = self.getvalue()
        super().close()
        if self.lost:
            return
        err = self.fs.plan and self.fs.plan.hit('close')
        if err:
            self.fs.files[self.name] = data[:len(data) // 2]
            raise err
        self.fs.files[self.name] = data


class SimFS(object):
    def __init__(self):
        self.files = {}
        self.plan = None
        self.capacity = None
        self.was_full = None
        self.lazy = False
        self.writes = self.opens = 0
        self.removed = []
        self.handles = []

    def abandon(self):
        """Files left open by a failed call are never closed: no garbage collector decides what is on the disk"""
        for f in self.handles:
            f.lost = True
        self.handles = []

    def key(self, path):
        p = os.fspath(path)
        p = p.decode() if isinstance(p, bytes) else p
        return os.path.normpath(p if os.path.isabs(p) else '/sim/cwd/' + p)

    def used(self):
        return sum(len(v) for v in self.files.values())

    def open(self, path, mode='r', *args, **kw):
        if isinstance(path, int):
            return self.real_open(path, mode, *args, **kw)
        key = self.key(path)
        writing = any(c in mode for c in 'wax+')
        if not writing and key not in self.files:
            return self.real_open(path, mode, *args, **kw)
        if writing:
            self.opens += 1
            err = self.plan and self.plan.hit('open')
            if err:
                raise err
            if '/missing/' in key:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), key)
        if 'x' in mode and key in self.files:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), key)
        if 'r' in mode and key not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), key)
        data = b'' if 'w' in mode else self.files.get(key, b'')
        if writing:
            self.files[key] = data
            f = SimFile(self, key, data, 'a' in mode)
        else:
            f = io.BytesIO(data)
        if 'b' not in mode:
            f = io.TextIOWrapper(f, encoding=kw.get('encoding') or 'utf-8')
        return f

    def remove(self, path, *args, **kw):
        key = self.key(path)
        if key not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), key)
        self.removed.append(key)
        del self.files[key]

    def replace(self, src, dst, *args, **kw):
        s, d = self.key(src), self.key(dst)
        if s not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), s)
        self.files[d] = self.files.pop(s)

    def exists(self, path):
        try:
            return self.key(path) in self.files or self.real_exists(path)
        except TypeError:
            return self.real_exists(path)

    @contextlib.contextmanager
    def mounted(self):
        self.real_open, self.real_exists = builtins.open, os.path.exists
        with contextlib.ExitStack() as st:
            for obj, name, value in ((builtins, 'open', self.open), (io, 'open', self.open), (os, 'remove', self.remove), (os, 'unlink', self.remove),
                                     (os, 'replace', self.replace), (os, 'rename', self.replace), (os.path, 'exists', self.exists),
                                     (os.path, 'isfile', self.exists), (os, 'makedirs', lambda *a, **k: None), (os, 'mkdir', lambda *a, **k: None)):
                st.enter_context(patched(obj, name, value))
            yield self
