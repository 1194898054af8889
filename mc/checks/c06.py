"""C06 saving writes a complete copy and replaces what an earlier save left"""
import os
import shutil
import tempfile

import dask

from .. import env, ops
from .. import world as W
from ..core import task, Violation, guarded, full
from bathygrid.convenience import load_grid

LEVEL = 'model_checking'
RULE = ('every ordered pair of grid states reached by the histories in the bound: the first is saved to a folder, the second over it, the folder is loaded (also after it was '
        'moved) and compared with the second, which is also continued; and every history with save, save elsewhere and move as operations')

M1 = ['grid', 'mean', 1.0, 'full', None, True]
M05 = ['grid', 'mean', 0.5, 'full', None, False]
S2 = ['grid', 'shoalest', 2.0, 'full', None, True]
AU = ['grid', 'mean', None, 'full', 'depth', True]
U1 = ['grid', 'mean', 1.0, 'update', None, False]

STATES = {
    'A gridded': [['add', 'A'], M1],
    'A ungridded': [['add', 'A']],
    'A two resolutions': [['add', 'A'], M1, M05],
    'AB gridded': [['add', 'A'], ['add', 'B'], M1],
    'AB minus A gridded': [['add', 'A'], ['add', 'B'], M1, ['rm', 'A'], U1],
    'AB minus A stale': [['add', 'A'], ['add', 'B'], M1, ['rm', 'A']],
    'C coarse': [['add', 'C'], S2],
    'D gridded': [['add', 'D'], M1],
    'DC auto': [['add', 'D'], ['add', 'C'], AU],
    'B plus C stale': [['add', 'B'], M1, ['add', 'C']],
    'emptied': [['add', 'A'], M1, ['rm', 'A']],
    'new': [],
}
QUICK = ['A gridded', 'A ungridded', 'AB minus A gridded', 'AB minus A stale', 'C coarse', 'D gridded', 'DC auto', 'A two resolutions', 'emptied']


def build(spec, hist, base=None):
    c = ops.Ctx(spec, 'overlap', base is not None, base)
    for op in hist:
        c.do(op)
    return c


def full_snap(c, g):
    s = W.snap(g, c.spec)
    s['allres'] = {}
    for *_, t in W.leaves(g):
        for r in t.cells:
            s['allres'][(t.min_x, t.min_y, float(r))] = {k: W.npa(v).tolist() for k, v in t.cells[r].items() if k in c.spec.layers}
    return s


def same(a, b, names):
    d = W.diff_snap(a, b, names=names)
    if d:
        raise Violation(d)
    ka, kb = sorted(a['allres']), sorted(b['allres'])
    W.require(ka == kb, 'gridded tiles and resolutions: {} {}, {} {}'.format(names[0], ka, names[1], kb))
    for k in ka:
        W.require(repr(a['allres'][k]) == repr(b['allres'][k]), 'tile {}: {} {}, {} {}'.format(k, names[0], a['allres'][k], names[1], b['allres'][k]))


CONTINUE = [['add', 'B'], ['add', 'A'], ['add', 'D'], ['add', 'C']]


def pair(part, spec, first, second, disk1, disk2):
    with env.scratch() as base:
        F = os.path.join(base, 'target [t] cells_2.0 {}')
        b1 = os.path.join(base, 'one')
        b2 = os.path.join(base, 'two')
        os.mkdir(b1), os.mkdir(b2)
        c1 = build(spec, STATES[first], b1 if disk1 else None)
        c1.grid.save(F)
        if c1.model.held:
            same(full_snap(c1, c1.grid), full_snap(c1, load_grid(F)), ('saved', 'loaded after the first save'))
        c2 = build(spec, STATES[second], b2 if disk2 else None)
        before = full_snap(c2, c2.grid)
        tree = W.tree_digest(c2.folder) if disk2 else None
        c2.grid.save(F)
        part.transitions += len(STATES[first]) + len(STATES[second]) + 2
        same(before, full_snap(c2, c2.grid), ('grid before', 'grid after saving it'))
        if disk2:
            W.require(W.tree_digest(c2.folder) == tree, 'saving elsewhere changed the folder the grid was in')
            shutil.rmtree(b2)
        M = os.path.join(base, 'deep', 'moved [m].v2')
        os.mkdir(os.path.join(base, 'deep'))
        os.rename(F, M)
        got = load_grid(M)
        same(before, full_snap(c2, got), ('saved', 'loaded after the second save and a move'))
        part.outcome(repr(before))
        part.checks += 4
        # the loaded grid is continued next to one that was never stored
        live = ops.Ctx(spec, 'overlap', False)
        for op in STATES[second]:
            live.do(op)
        live2 = ops.Ctx.__new__(ops.Ctx)
        live2.__dict__.update(live.__dict__)
        live2.grid, live2.model = got, live.model.clone()
        live2.touched = set()
        todo = [op for op in CONTINUE if op[1] not in live.model.held][:2]
        todo += [['grid', live.grid.grid_algorithm or 'mean', 1.0, 'full', None, False]]
        for op in todo:
            live.do(op)
            live2.do(op)
            part.transitions += 2
            d = W.diff_snap(W.snap(live.grid, spec), W.snap(live2.grid, spec), names=('never stored', 'stored'))
            if d:
                raise Violation('then {}: {}'.format(op, d))
            W.check_placement(live2.grid, live.model)
        W.require(not os.path.exists(F), 'the moved grid wrote to the place it was moved from')
        d = W.diff_snap(W.snap(live.grid, spec), W.snap(load_grid(M), spec), names=('never stored', 'loaded again'))
        if d:
            raise Violation('then {}: {}'.format(todo, d))
        part.checks += 4
        for c in (c1, c2):
            part.state(W.state_digest(c.grid))


@task
def pairs(part, spec, first, seconds, chunk=None):
    sp = W.Spec(**spec)
    with dask.config.set({'array.chunk-size': chunk} if chunk else {}):
        for second, d1, d2 in seconds:
            case = {'spec': spec, 'first': STATES[first], 'second': STATES[second], 'first on disk': d1, 'second on disk': d2}
            part.sample(case)
            guarded(part, case, pair, part, sp, first, second, d1, d2)
            part.executions += 1
            if full(part):
                return


class Saver(ops.Ctx):
    """a grid that is saved, saved elsewhere and moved in the middle of its history; folder 'work' holds everything"""

    def __init__(self, spec, world):
        super().__init__(spec, world, False)
        self.base = tempfile.mkdtemp(dir=env.scratch_root())
        self.work = os.path.join(self.base, 'w')
        os.mkdir(self.work)
        self.at = None      # where the grid lives on disk
        self.n = 0
        self.frozen = {}    # folders the grid has left, with what they held then

    def enabled(self, op):
        if op[0] == 'save':
            return True
        if op[0] in ('saveto', 'move', 'reload'):
            return self.at is not None and bool(self.model.held) and (op[0] == 'reload' or self.n < 3)
        return super().enabled(op)

    def new(self):
        self.n += 1
        return os.path.join(self.work, 'f{}'.format(self.n))

    def do(self, op):
        k = op[0]
        if k == 'save':
            if self.at is None:
                self.at = self.new()
                self.grid.save(self.at)
            else:
                self.grid.save()
        elif k == 'saveto':
            self.frozen[self.at] = W.tree_digest(self.at)
            self.at = self.new()
            self.grid.save(self.at)
        elif k == 'move':
            to = self.new()
            os.rename(self.at, to)
            self.frozen[self.at] = None
            self.at = to
            self.grid = load_grid(to)
        elif k == 'reload':
            self.grid = load_grid(self.at)
        else:
            super().do(op)

    def key(self):
        return super().key() + (self.at and os.path.basename(self.at), self.n, W.tree_digest(self.work))

    def snapshot(self):
        b = tempfile.mkdtemp(dir=self.base)
        shutil.copytree(self.work, os.path.join(b, 'w'))
        return (super().snapshot(), self.at, self.n, dict(self.frozen), b)

    def restore(self, s):
        super().restore(s[0])
        self.at, self.n, self.frozen = s[1], s[2], dict(s[3])
        shutil.rmtree(self.work)
        shutil.copytree(os.path.join(s[4], 'w'), self.work)

    def drop(self, s):
        shutil.rmtree(s[4], ignore_errors=True)


def saver_check(c, op, h, b):
    W.check_placement(c.grid, c.model)
    if op[0] == 'grid':
        o = ops.gridop(op)
        W.check_surface(c.grid, c.model, o['alg'], o['res'], o['auto'], 'gridded', c.returned)
    if c.at is not None and (c.model.held or op[0] in ('save', 'saveto')):
        other = load_grid(c.at)
        same(full_snap(c, c.grid), full_snap(c, other), ('live', 'loaded'))
    for f, dg in c.frozen.items():
        if dg is None:
            W.require(not os.path.exists(f), 'the grid wrote to {} after it was moved away from there'.format(os.path.basename(f)))
        else:
            W.require(W.tree_digest(f) == dg, 'the grid changed {} after it was saved elsewhere'.format(os.path.basename(f)))


@task
def explore(part, spec, world, alpha, prefix, depth):
    sp = W.Spec(**spec)
    ctx = Saver(sp, world)
    try:
        def chk(c, op, h, b):
            part.checks += 1
            saver_check(c, op, h, b)
        ops.explore(part, ctx, prefix, alpha, depth, chk)
    finally:
        ctx.close()


def plan(run):
    t = run.thorough
    names = list(STATES) if t else QUICK
    for backend in ('numpy', 'zarr'):
        for kind in ('sr', 'vr'):
            for chunk in (None, '64B') if t else (None,):
                for a in names:
                    combos = []
                    for i, b in enumerate(names):
                        for d1, d2 in ((False, False), (True, True), (False, True), (True, False)) if t else ((False, False),) if (i + names.index(a)) % 2 else ((False, True),):
                            combos.append((b, d1, d2))
                    for k in range(0, len(combos), 3):
                        run.add(pairs, spec=W.Spec(kind=kind, backend=backend, off='utm').json(), first=a, seconds=combos[k:k + 3], chunk=chunk)
    from .c03 import alphabet
    for backend in ('numpy', 'zarr') if t else ('numpy',):
        for kind in ('sr', 'vr'):
            al = alphabet('AB', [['grid', 'mean', 1.0, 'full', None, False]]) + [['save'], ['saveto'], ['move']]
            for pre in ops.prefixes(al, 2):
                if pre[0][0] in ('saveto', 'move'):
                    continue
                run.add(explore, spec=W.Spec(kind=kind, backend=backend, off='utm').json(), world='overlap', alpha=al, prefix=pre, depth=4 if t else 2)
    run.bound(states=len(names), operations_in_histories_with_saves=6 if t else 4)
    run.assumptions = ['both grids saved to a folder are of the same type and backend']
