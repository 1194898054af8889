"""A controlled stand-in for the dask client: the harness decides which task runs when.

Tasks get pickled copies of their inputs and return pickled results, as workers in other processes do; nothing runs until
the driver waits for or gathers futures, then all outstanding tasks run in the order the schedule prescribes.  A task may run
twice (a worker that dies after the work and before the answer).  Files touched by each task are recorded."""
import contextlib
import os
import pickle
import sys

import numpy as np

from . import env
from .core import Violation
import bathygrid.bgrid
import bathygrid.utilities
import dask.distributed as dd

_current = None     # (task id, list of accesses)


def _audit(event, args):
    if _current is None:
        return
    try:
        if event == 'open':
            path, mode, flags = args[0], args[1], args[2]
            if isinstance(path, (str, bytes)):
                w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)) if isinstance(flags, int) else ('w' in (mode or ''))
                _current[1].append((os.fspath(path), w))
        elif event in ('os.remove', 'os.rmdir', 'shutil.rmtree', 'os.truncate'):
            _current[1].append((str(args[0]), True))
        elif event == 'os.rename':
            _current[1].append((str(args[0]), True))
            _current[1].append((str(args[1]), True))
    except Exception:
        pass


_hooked = False


def hook():
    global _hooked
    if not _hooked:
        sys.addaudithook(_audit)
        _hooked = True


class Future:
    def __init__(self, client, blob=None, task=None):
        self.client, self.blob, self.task = client, blob, task
        self.error = None
        self.key = id(self)

    def done(self):
        return self.blob is not None

    def result(self, timeout=None):
        self.client.run()
        if self.error is not None:
            raise self.error
        return pickle.loads(self.blob)


def _resolve(x):
    if isinstance(x, Future):
        return x.result()
    if isinstance(x, list):
        return [_resolve(i) for i in x]
    if isinstance(x, tuple):
        return tuple(_resolve(i) for i in x)
    return x


class Client:
    """schedule: function(batch number, number of tasks) -> order in which they run; an index may occur twice"""

    def __init__(self, workers, schedule):
        self.workers = workers
        self.schedule = schedule
        self.pending = []
        self.batches = []
        self.log = []
        self.completed = []

    def ncores(self, *a, **k):
        return {'worker-{}'.format(i): 1 for i in range(self.workers)}

    nthreads = ncores

    def scheduler_info(self, *a, **k):
        return {'workers': {k: {'nthreads': 1} for k in self.ncores()}}

    def scatter(self, data, *a, **k):
        if isinstance(data, (list, tuple)):
            return [Future(self, pickle.dumps(d)) for d in data]
        return Future(self, pickle.dumps(data))

    def submit(self, fn, *args, **kwargs):
        for k in ('pure', 'key', 'workers', 'priority', 'retries'):
            kwargs.pop(k, None)
        # arguments are pickled when the task is submitted, futures among them are resolved when it runs
        f = Future(self, None, (pickle.dumps(fn), [a if isinstance(a, Future) else pickle.dumps(a) for a in args], pickle.dumps(kwargs)))
        self.pending.append(f)
        return f

    def map(self, fn, *seqs, **kwargs):
        for k in ('pure', 'key', 'workers', 'priority', 'retries', 'batch_size'):
            kwargs.pop(k, None)
        return [self.submit(fn, *a, **kwargs) for a in zip(*seqs)]

    def run(self):
        global _current
        todo, self.pending = self.pending, []
        if not todo:
            return
        n = len(self.batches)
        order = list(self.schedule(n, len(todo)))
        self.batches.append(len(todo))
        touched = []
        for i in order:
            f = todo[i]
            fn, args, kw = f.task
            args = [a.result() if isinstance(a, Future) else pickle.loads(a) for a in args]
            acc = []
            _current = (i, acc)
            try:
                out = pickle.loads(fn)(*args, **pickle.loads(kw))
                f.blob = pickle.dumps(out)
                f.error = None
            except Violation:
                raise
            except Exception as e:
                f.error = e
                f.blob = b''
            finally:
                _current = None
            touched.append((i, acc))
            self.completed.append(f)
        self.log.append((n, order))
        base = env.scratch_root()
        writes, reads = {}, {}
        for i, acc in touched:
            for p, w in acc:
                if p.startswith(base):
                    (writes if w else reads).setdefault(p, set()).add(i)
        for p, who in writes.items():
            both = who | reads.get(p, set())
            if len(both) > 1:
                raise Violation('worker tasks {} of one batch race on file {}'.format(sorted(both), os.path.relpath(p, base)))

    def gather(self, futures, *a, **k):
        self.run()
        return _resolve(futures)

    def cancel(self, *a, **k):
        pass

    def close(self, *a, **k):
        pass

    def __reduce__(self):
        raise Violation('the client was sent to a worker')

    def __deepcopy__(self, memo):
        return self


def _fake_wait(fs, *a, **k):
    def first(x):
        if isinstance(x, Future):
            return x
        if isinstance(x, (list, tuple, set)):
            for i in x:
                f = first(i)
                if f is not None:
                    return f
    f = first(fs)
    if f is not None:
        f.client.run()


def _fake_as_completed(fs, *a, with_results=False, **k):
    fs = list(fs)
    if fs:
        fs[0].client.run()
        order = [f for f in fs[0].client.completed if f in fs]
        last = []
        for f in reversed(order):
            if f not in last:
                last.append(f)
        for f in reversed(last):
            yield (f, f.result()) if with_results else f


@contextlib.contextmanager
def controlled(client):
    """every way the driver may get at a client or wait for it leads to ours"""
    hook()
    saved = []

    def patch(mod, name, val, create=False):
        if hasattr(mod, name) or create:
            saved.append((mod, name, getattr(mod, name, None), hasattr(mod, name)))
            setattr(mod, name, val)
    for mod in (bathygrid.bgrid, dd):
        patch(mod, 'wait', _fake_wait)
        patch(mod, 'progress', lambda *a, **k: None)
        patch(mod, 'as_completed', _fake_as_completed)
    for mod in (bathygrid.bgrid, bathygrid.utilities):
        patch(mod, 'dask_find_or_start_client', lambda *a, **k: client)
    try:
        yield client
    finally:
        for mod, name, val, had in reversed(saved):
            if had:
                setattr(mod, name, val)
            else:
                delattr(mod, name)
