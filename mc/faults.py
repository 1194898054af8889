"""Faults at the system calls the code under check makes on the files of a grid.

An audit hook sees every attempt to open, list, make, rename or remove a file before it happens.  In recording mode it
notes what was attempted; in fault mode it makes the chosen attempts fail, for good or until a virtual clock has advanced.
Nothing in the code under check is replaced except the clock."""
import contextlib
import errno
import os
import re
import resource
import sys
import time
from unittest import mock

_mode = None
_hooked = False
_PARTIAL = re.compile(r'\.[0-9a-f]{32}\.partial$')
_REMOVALS = ('remove', 'rmdir')


def _full(path, dir_fd):
    if isinstance(path, int):
        return None
    p = os.fsdecode(path)
    if not os.path.isabs(p):
        if isinstance(dir_fd, int) and dir_fd >= 0:
            p = os.path.join(os.readlink('/proc/self/fd/{}'.format(dir_fd)), p)
        else:
            p = os.path.abspath(p)
    return os.path.normpath(p)


def _attempts(event, args):
    """(kind, path) of one audited event"""
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        if mode is None and not os.path.isabs(os.fsdecode(path)):
            return    # os.open relative to a folder descriptor, as rmtree does; the removals inside are seen one by one
        w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)) if isinstance(flags, int) else any(c in (mode or 'r') for c in 'wax+')
        yield ('write' if w else 'read'), _full(path, -1)
    elif event == 'os.remove':
        yield 'remove', _full(args[0], args[1])
    elif event == 'os.rmdir':
        yield 'rmdir', _full(args[0], args[1])
    elif event == 'os.mkdir':
        yield 'mkdir', _full(args[0], args[2])
    elif event == 'os.rename':
        yield 'rename', _full(args[1], args[3])
    elif event in ('os.listdir', 'os.scandir'):
        if args[0] is not None and not isinstance(args[0], int):
            yield 'list', _full(args[0], -1)


def _audit(event, args):
    m = _mode
    if m is None or not (event == 'open' or event.startswith('os.')):
        return
    for kind, path in _attempts(event, args):
        if path is None or not path.startswith(m.base):
            continue
        m.see(kind, os.path.relpath(_PARTIAL.sub('', path), m.base))


class Record:
    def __init__(self, base):
        self.base = base
        self.count = {}

    def see(self, kind, path):
        self.count[(kind, path)] = self.count.get((kind, path), 0) + 1


class Clock:
    """time passes only when somebody sleeps"""

    def __init__(self):
        self.slept = 0.0
        self.sleeps = 0

    def sleep(self, s):
        self.slept += max(0.0, s)
        self.sleeps += 1
        if self.sleeps > 100000:
            raise RuntimeError('waits forever')


class Lock:
    """attempts selected by pick fail with a permission error until the clock has advanced by dur after the first of them (the first on the same path, unless together)"""

    def __init__(self, base, pick, dur, clock, together=False):
        self.base, self.pick, self.dur, self.clock, self.together = base, pick, dur, clock, together
        self.since = {}
        self.hits = 0

    def see(self, kind, path):
        if self.pick(kind, path):
            t0 = self.since.setdefault(None if self.together else (kind, path), self.clock.slept)
            if self.clock.slept - t0 < self.dur - 1e-9:
                self.hits += 1
                raise PermissionError(errno.EACCES, 'locked by the fault injector', path)


class Lasting:
    """the n-th and all later attempts selected by pick fail"""

    def __init__(self, base, pick, n, err):
        self.base, self.pick, self.n, self.err = base, pick, n, err
        self.seen = 0
        self.hits = 0

    def see(self, kind, path):
        if self.pick(kind, path) and not (kind == 'mkdir' and os.path.isdir(os.path.join(self.base, path))):
            self.seen += 1
            if self.seen >= self.n:
                self.hits += 1
                raise OSError(self.err, 'failed by the fault injector', path)


@contextlib.contextmanager
def active(mode, clock=None):
    global _mode, _hooked
    if not _hooked:
        sys.addaudithook(_audit)
        _hooked = True
    mode.base = os.path.realpath(mode.base)
    t, m, p = time.time, time.monotonic, time.perf_counter
    c = clock or Clock()
    with mock.patch.object(time, 'sleep', c.sleep), mock.patch.object(time, 'time', lambda: t() + c.slept), \
         mock.patch.object(time, 'monotonic', lambda: m() + c.slept), mock.patch.object(time, 'perf_counter', lambda: p() + c.slept):
        _mode = mode
        try:
            yield mode
        finally:
            _mode = None


@contextlib.contextmanager
def file_size_limit(n):
    """no file can grow beyond n bytes: writes fail with EFBIG"""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
