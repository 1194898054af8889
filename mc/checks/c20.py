"""C20 temporary file locks are waited out, lasting errors are reported"""
import errno
import os
import shutil

from .. import faults
from .. import ops
from .. import sched
from .. import world as W
from ..core import task, guarded, full, Violation
from bathygrid.convenience import load_grid
from .c08 import par_grid

LEVEL = 'fault_injection'
RULE = ('for every operation of the list all attempts to remove, make, write, rename, list and read files of the grid are recorded in a run without faults; then each attempt alone (and all removals '
        'together) is made to fail, for a time or for good, and every distinct file size is made the largest a file may have')

G1 = ['grid', 'mean', 1.0, 'full', None, True]
G5 = ['grid', 'shoalest', 0.5, 'full', None, True]
GA = ['grid', 'mean', None, 'full', 'depth', True]
GX = ['grid', 'mean', 0.5, 'full', None, False]
U1 = ['grid', 'mean', 1.0, 'update', None, False]

# name -> (operations before, operation under faults)
CASES = {
    'add first': ([], ['add', 'A']),
    'add': ([['add', 'A']], ['add', 'B']),
    'add to gridded': ([['add', 'A'], G1], ['add', 'B']),
    'remove': ([['add', 'A'], ['add', 'B'], G1], ['rm', 'A']),
    'remove emptied': ([['add', 'A'], ['add', 'D'], G1], ['rm', 'D']),
    'remove last': ([['add', 'A'], G1], ['rm', 'A']),
    'remove ungridded': ([['add', 'A'], ['add', 'B']], ['rm', 'B']),
    'grid first': ([['add', 'A'], ['add', 'B']], G1),
    'grid again': ([['add', 'A'], ['add', 'B'], G1], G5),
    'grid automatic': ([['add', 'A'], ['add', 'B'], G1], GA),
    'grid second resolution': ([['add', 'A'], G1], GX),
    'update': ([['add', 'A'], ['add', 'D'], G1, ['add', 'B']], U1),
    'save': ([['add', 'A'], ['add', 'B'], G1], ['save']),
    'save over older': ([['add', 'A'], ['save'], ['add', 'B'], G1], ['save']),
    'load': ([['add', 'A'], ['add', 'B'], G1], ['reload']),
    'parallel grid': ([['add', 'A'], ['add', 'B'], G1], ['par'] + G5),
    'parallel update': ([['add', 'A'], ['add', 'D'], G1, ['add', 'B']], ['par'] + U1),
}
# one tile, another subtile of it, another tile
W.WORLDS['tiny'] = {'A': W.rows((0.5, 0.5, 10.), (1.5, 1.5, 14.5), seed=0), 'B': W.rows((0.625, 0.75, 21.), (2.5, 0.5, 33.), seed=1), 'D': W.rows((5.5, 1.5, 40.), seed=2)}
INMEM = ('save', 'save over older')


def do(c, op):
    if op[0] == 'save':
        c.grid.save(os.path.join(c.base, 'saved'), progress_bar=False)
    elif op[0] == 'par':
        client = sched.Client(2, lambda n, k: range(k))
        with sched.controlled(client):
            par_grid(c, op[1:], client)
    else:
        c.do(op)


class State:
    """everything below the scratch folder of a context, and the context"""

    def __init__(self, c):
        self.c = c
        if not os.path.exists(c.base):
            os.makedirs(c.base)
        folder, c.folder = c.folder, ''
        self.live = c.snapshot()
        c.folder = folder
        self.copy = c.base + '_copy'
        shutil.copytree(c.base, self.copy)

    def restore(self):
        c = self.c
        folder, c.folder = c.folder, ''
        c.restore(self.live)
        c.folder = folder
        shutil.rmtree(c.base, ignore_errors=True)
        shutil.copytree(self.copy, c.base, copy_function=shutil.copyfile)

    def close(self):
        shutil.rmtree(self.copy, ignore_errors=True)


def start(c, before):
    for op in before:
        do(c, op)
    return State(c)


def where(c, op):
    return os.path.join(c.base, 'saved') if op[0] == 'save' else c.folder


def result(c, op):
    f = where(c, op)
    live = W.snap(c.grid, c.spec) if c.model.held else 'empty'
    return live, W.tree_digest(f)


def loaded(c, op):
    f = where(c, op)
    if not c.model.held:
        return 'empty'
    return W.snap(load_grid(f), c.spec)


def waited(part, c, st, op, want, pick, dur, what, together=False):
    st.restore()
    clock = faults.Clock()
    with faults.active(faults.Lock(c.base, pick, dur, clock, together), clock) as m:
        do(c, op)
    W.require(m.hits > 0, 'the fault was not met: ' + what)
    part.transitions += 1
    part.checks += 1
    live, tree = result(c, op)
    if live != want[0]:
        raise Violation('{}: the grid in memory differs from that of a run without faults'.format(what))
    if tree != want[1] and loaded(c, op) != want[2]:
        raise Violation('{}: the grid on disk differs from that of a run without faults'.format(what))
    part.outcome((what, m.hits))


def reported(part, c, st, op, want, mode, what):
    st.restore()
    part.transitions += 1
    part.checks += 1
    err = None
    try:
        with faults.active(mode):
            do(c, op)
    except Violation:
        raise
    except Exception as e:
        err = e
    if mode.hits == 0:
        part.count('faults_not_met')
        return
    if err is None:
        live, tree = result(c, op)
        if live != want[0] or tree != want[1]:
            raise Violation('{}: the operation reports success and its result differs from that of a run without faults'.format(what))
        part.count('faults_without_effect')
        return
    part.outcome((what, type(err).__name__))


def limited(part, c, st, op, want, n):
    st.restore()
    part.transitions += 1
    part.checks += 1
    err = None
    try:
        with faults.file_size_limit(n):
            do(c, op)
    except Violation:
        raise
    except Exception as e:
        err = e
    if err is None:
        raise Violation('files cannot grow beyond {} bytes: the operation reports success'.format(n))
    part.outcome(('limit', n, type(err).__name__))


@task
def inject(part, spec, case, world, modes):
    before, op = CASES[case]
    sp = W.Spec(**spec)
    base = None
    import tempfile
    from .. import env
    base = tempfile.mkdtemp(dir=env.scratch_root())
    c = ops.Ctx(sp, world, case not in INMEM, base=os.path.join(base, 'w'))
    ident = {'spec': sp.json(), 'case': case}
    try:
        st = start(c, before)
        with faults.active(faults.Record(c.base)) as rec:
            do(c, op)
        part.transitions += len(before) + 1
        seen = dict(rec.count)
        live, tree = result(c, op)
        want = (live, tree, loaded(c, op))
        part.state((repr(ident), tree))
        sizes = set()
        for (k, p) in seen:
            f = os.path.join(c.base, p)
            if k in ('write', 'rename') and os.path.isfile(f):
                sizes.add(os.path.getsize(f))
        # the same run again is the same: otherwise a difference would say nothing
        st.restore()
        do(c, op)
        if result(c, op)[0] != live or loaded(c, op) != want[2]:
            raise Violation('two runs without faults differ', ident)
        rem = sorted(k for k in seen if k[0] in ('remove', 'rmdir'))
        part.sample(dict(ident, attempts=len(seen), removals=len(rem), sizes=len(sizes)))
        if 'lock' in modes and rem:
            for d, tg in ((0.05, False), (0.05, True), (1.0, True), (10.0, True)):
                def f(d=d, tg=tg):
                    waited(part, c, st, op, want, lambda k, p: k in ('remove', 'rmdir'), d, 'all removals fail for {} s'.format(d), tg)
                guarded(part, dict(ident, lock='all', together=tg, seconds=d), f)
                part.executions += 1
            def folder(kp):
                return kp[1] if kp[0] == 'rmdir' else os.path.dirname(kp[1])
            groups = [[kp] for kp in rem] if modes.get('each') else [[kp for kp in rem if folder(kp) == d] for d in sorted({folder(kp) for kp in rem})]
            for grp in groups:
                for d in modes['lock']:
                    def f(grp=grp, d=d):
                        waited(part, c, st, op, want, lambda k, p: (k, p) in grp, d, 'removals of {} fail for {} s each'.format(sorted({p for _, p in grp}), d))
                    guarded(part, dict(ident, lock=[list(x) for x in grp], seconds=d), f)
                    part.executions += 1
                    if full(part):
                        return
        if 'lasting' in modes:
            for kp in sorted(seen):
                if kp[0] == 'read' and not modes.get('reads') and op[0] != 'reload':
                    continue
                for e in modes['lasting']:
                    for n in sorted({1, seen[kp]} if modes.get('reads') else {1}):
                        def f(kp=kp, e=e, n=n):
                            reported(part, c, st, op, want, faults.Lasting(c.base, lambda k, p: (k, p) == kp, n, e),
                                     '{} of {} fails from attempt {} on with {}'.format(kp[0], kp[1], n, errno.errorcode[e]))
                        guarded(part, dict(ident, fails=list(kp), attempt=n, error=errno.errorcode[e]), f)
                        part.executions += 1
                        if full(part):
                            return
        if 'limit' in modes:
            for s in sorted(sizes - {0}):
                guarded(part, dict(ident, limit=s - 1), limited, part, c, st, op, want, s - 1)
                part.executions += 1
                if full(part):
                    return
    finally:
        c.close()
        shutil.rmtree(base, ignore_errors=True)


def plan(run):
    t = run.thorough
    for kind in ('sr', 'vr'):
        for backend in ('numpy', 'zarr'):
            for case in CASES:
                if not t and backend == 'zarr' and case in ('add', 'remove ungridded', 'grid first', 'parallel update', 'grid second resolution'):
                    continue
                for modes in ({'lock': (1.0,), 'each': t}, {'lasting': (errno.EACCES,) if not t else (errno.EACCES, errno.ENOSPC), 'reads': t}, {'limit': 1}):
                    run.add(inject, spec=W.Spec(kind=kind, backend=backend, off='zero').json(), world='tiny' if not t or 'lasting' in modes else 'nogrow', case=case, modes=modes)
    run.bound(faults_per_operation=1, locked_seconds=[0.05, 1, 10], granularity='every attempt' if t else 'locks per folder of an array, lasting errors per attempt without reads')
    run.assumptions = ['a lock is a permission error on removing a file or folder; the code waits with time.sleep', 'the loop of rmtree over folder descriptors is seen through its removals',
                       'what GDAL writes is outside']
