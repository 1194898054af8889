"""C08 parallel gridding equals sequential gridding for every schedule"""
import copy
import itertools
import os

from .. import env, ops, sched
from .. import world as W
from ..core import task, Violation, guarded, full
from bathygrid.convenience import load_grid

LEVEL = 'model_checking'
RULE = ('for every history, worker count and grid kind all orders in which the worker tasks of every batch can run (and all single repetitions of a task) are executed under a '
        'controlled scheduler; tasks of one batch whose file accesses are disjoint commute, so task orders cover their interleavings; each result is compared with the sequential run')

# one container over several tiles, others that touch some of them; deep and shallow so that automatic resolutions differ
W.WORLDS['spread'] = {
    'A': W.rows((0.5, 0.5, 8.), (4.5, 0.5, 18.), (8.5, 0.5, 30.), (0.5, 4.5, 50.), (2.5, 2.5, 28.), seed=0),
    'B': W.rows((0.625, 0.75, 30.), (4.75, 0.625, 9.), (6.5, 2.5, 44.), seed=1),
    'C': W.rows((8.75, 0.625, 5.), (4.5, 4.5, 21.), seed=2),
    'E': W.rows((-0.5, -0.5, 21.), seed=3),
}
W.WORLDS['wide'] = {
    'A': W.rows(*[(4.0 * i + 0.5, 0.5, 10. + 3 * i) for i in range(9)], seed=0),
    'B': W.rows(*[(4.0 * i + 0.75, 0.75, 40. + 3 * i) for i in range(1, 9, 2)], seed=1),
    'C': W.rows((0.75, 4.5, 15.), (16.5, 0.625, 12.), seed=2),
}

HIST = {
    'first': [['add', 'A']],
    'two': [['add', 'A'], ['add', 'C']],
    'regrid': [['add', 'A'], 'G', ['add', 'B']],
    'removed': [['add', 'A'], ['add', 'B'], ['add', 'C'], 'G', ['rm', 'A']],
    'grown': [['add', 'A'], 'G', ['add', 'C'], ['rm', 'A'], ['add', 'B']],
    'other': [['add', 'A'], ['grid', 'shoalest', 2.0, 'full', None, True], ['add', 'C']],
    'nothing': [['add', 'A'], ['add', 'C'], 'G'],
    'reloaded': [['add', 'A'], 'G', ['add', 'C'], ['reload']],
}


def orders(n, repeats):
    for p in itertools.permutations(range(n)):
        yield list(p)
    if repeats:
        for i in range(n):
            yield list(range(n)) + [i]
            yield [i] + list(range(n))


def cells(c, g):
    return {(t.min_x, t.min_y, float(r)): {k: repr(W.npa(v).tolist()) for k, v in t.cells[r].items() if k in c.spec.layers} for *_, t in W.leaves(g) for r in t.cells}


def observe(c):
    g = c.grid
    return {'snap': W.snap(g, c.spec), 'cells': cells(c, g), 'changed': g.point_count_changed, 'no_grid': g.no_grid, 'layers': list(g.layer_names), 'ret': c.returned}


def diff(a, b, names):
    d = W.diff_snap(a['snap'], b['snap'], names=names)
    if d:
        return d
    for k in a:
        if k != 'snap' and a[k] != b[k]:
            if k == 'cells':
                for t in sorted(set(a[k]) | set(b[k])):
                    if a[k].get(t) != b[k].get(t):
                        return 'tile {}: {} {}, {} {}'.format(t, names[0], a[k].get(t), names[1], b[k].get(t))
            return '{}: {} {}, {} {}'.format(k, names[0], a[k], names[1], b[k])


def par_grid(c, op, client):
    o = ops.gridop(op)
    c.grid.client = client
    ret = c.grid.grid(o['alg'], o['res'], clear_existing=o['clear'], auto_resolution_mode=o['auto'] or 'depth', regrid_option=o['opt'], use_dask=True, progress_bar=False)
    c.grid.client = None
    c.returned = [float(r) for r in ret]


@task
def schedules(part, spec, world, disk, hist, final, workers, repeats, limit=None):
    sp = W.Spec(**spec)
    g0 = [final[0], final[1], final[2], 'full', final[4], final[2] is None]
    history = [g0 if o == 'G' else o for o in HIST[hist]]
    history = [o for o in history if not (o[0] == 'reload' and not disk)]
    # a grid that uses another method has to be cleared first
    if hist == 'other' and final[1] != 'shoalest':
        final = final[:5] + [True]
    seq = ops.Ctx(sp, world, disk)
    par = ops.Ctx(sp, world, disk)
    try:
        for op in history:
            seq.do(op)
            par.do(op)
        start = par.snapshot()
        part.transitions += len(history)
        seq.do(list(final))
        want = observe(seq)
        wdisk = W.snap(load_grid(seq.folder), sp) if disk else None
        # the sizes of the batches are found by running once in natural order
        plan = None

        def run(schedule, case):
            par.restore(start)
            cl = sched.Client(workers, lambda b, n: schedule[b] if schedule else range(n))
            with sched.controlled(cl):
                par_grid(par, final, cl)
            part.transitions += 1
            got = observe(par)
            part.checks += 1
            d = diff(want, got, ('sequential', 'parallel'))
            if d:
                raise Violation(d)
            if disk:
                d = W.diff_snap(wdisk, W.snap(load_grid(par.folder), sp), names=('sequential on disk', 'parallel on disk'))
                if d:
                    raise Violation(d)
            part.state((tuple(map(tuple, schedule or [])), W.state_digest(par.grid)))
            return cl.batches

        case = {'spec': spec, 'world': world, 'disk': disk, 'history': history, 'grid': final, 'workers': workers, 'schedule': 'natural'}
        box = []
        if not guarded(part, case, lambda: box.append(run(None, case))):
            return
        part.executions += 1
        part.outcome(repr(want))
        batches = box[0]
        part.sample(dict(case, batches=batches))
        for sch in itertools.product(*[list(orders(n, repeats)) for n in batches]):
            case = {'spec': spec, 'world': world, 'disk': disk, 'history': history, 'grid': final, 'workers': workers, 'schedule': [list(s) for s in sch]}
            guarded(part, case, run, list(sch), case)
            part.executions += 1
            if full(part):
                return
    finally:
        seq.close()
        par.close()


def plan(run):
    t = run.thorough
    F = {'fixed': ['grid', 'mean', 1.0, 'full', None, False], 'fixedup': ['grid', 'mean', 1.0, 'update', None, False],
         'auto': ['grid', 'mean', None, 'full', 'depth', True], 'autoup': ['grid', 'mean', None, 'update', 'depth', False],
         'dens': ['grid', 'mean', None, 'full', 'density', True], 'shoal': ['grid', 'shoalest', 0.5, 'full', None, False]}
    for kind in ('sr', 'vr'):
        finals = ['fixed', 'fixedup', 'auto', 'dens', 'shoal'] + (['autoup'] if kind == 'vr' else [])
        for hist in HIST:
            for f in finals:
                if f.endswith('up') and hist in ('first', 'two', 'other'):
                    continue
                if hist == 'reloaded':
                    continue
                for workers in (1, 2, 3, 8):
                    run.add(schedules, spec=W.Spec(kind=kind, off='utm').json(), world='spread', disk=False, hist=hist, final=F[f], workers=workers, repeats=workers <= 3)
        # on disk: the workers write themselves when the tiles are subgrids
        for backend in ('numpy', 'zarr'):
            for hist in ('two', 'regrid', 'removed', 'nothing', 'reloaded') if t else ('regrid', 'removed', 'reloaded'):
                for f in (['auto', 'autoup', 'fixedup', 'shoal'] if t else ['auto', 'autoup']) if kind == 'vr' else ['fixed', 'fixedup']:
                    if f.endswith('up') and hist == 'two':
                        continue
                    for workers in ((1, 2, 3, 8) if t else (3,) if backend == 'numpy' else (2,)):
                        if workers == 8 and hist in ('two', 'nothing') and kind == 'vr' and backend == 'zarr':
                            continue
                        run.add(schedules, spec=W.Spec(kind=kind, off='zero', backend=backend).json(), world='spread', disk=True, hist=hist, final=F[f], workers=workers, repeats=False)
        # more tiles than workers, several batches
        for hist in ('first', 'regrid', 'removed'):
            for f in ('fixed', 'fixedup', 'auto'):
                if f == 'fixedup' and hist == 'first':
                    continue
                for workers in (2, 3) if not t else (1, 2, 3, 4):
                    run.add(schedules, spec=W.Spec(kind=kind, off='zero').json(), world='wide', disk=False, hist=hist, final=F[f], workers=workers, repeats=False)
    run.bound(workers=[1, 2, 3, 8], tiles='up to 9', batches='up to 5', orders='all', repeated_tasks=1)
    run.assumptions = ['results are gathered in the order the tasks were submitted, as dask does', 'a task on disk runs once (a worker that dies while it writes is a crash inside an operation, which is not covered); tasks in memory may run twice', 'the engine of cube gridding is not installed here; its parallel form is explored with a stand-in under C25']
