"""C27 grids do not affect one another"""
import itertools
import os
import shutil
import tempfile

from .. import env, ops
from .. import world as W
from ..core import task, guarded, full, apart, Part

LEVEL = 'model_checking'
RULE = ('every interleaving of two histories on two live grids, for every pair of histories, types, backends and places in the bounds; after every operation both grids (points, surfaces, metadata and every '
        'file) are compared with what the same operations give when the grid is alone; part of the histories pass the same arrays and lists to both grids')

G1 = ['grid', 'mean', 1.0, 'full']
GU = ['grid', 'mean', 1.0, 'update']
G2 = ['grid', 'shoalest', 2.0, 'full']
GA = ['grid', 'mean', None, 'full', 'depth']
A, B, C = ['add', 'A'], ['add', 'B'], ['add', 'C']
RA, RB = ['rm', 'A'], ['rm', 'B']
LOAD = ['reload']

# depths whose resolution is coarser than the small tiles
W.WORLDS['deep'] = {c: tuple((x, y, 150.0 + 8 * abs(z)) + tuple(r) for x, y, z, *r in v) for c, v in W.OVERLAP.items()}

HISTORIES = {
    'grow': [A, G1, B, GU],
    'shrink': [A, B, G1, RA],
    'other': [C, G2, A, G2],
    'auto': [B, GA, C, ['grid', 'mean', None, 'update', 'depth']],
    'auto2': [A, GA, RA, B],
    'dense': [A, ['grid', 'mean', None, 'full', 'density'], B, ['grid', 'mean', None, 'full', 'density']],
    'again': [A, RA, A, G1],
    'slopes': [A, G1, ['look'], B],
    'load': [A, G1, LOAD, RA],
    'load2': [C, LOAD, A, G2],
    'short': [A, G1, LOAD],
    'short2': [C, LOAD, A],
    'short3': [A, B, RA],
    'short4': [B, A, G1],
}


class Live(ops.Ctx):
    """a grid that may share its input with another one"""

    def __init__(self, spec, world, folder, shared):
        super().__init__(spec, world, False)
        self.shared = shared
        if folder:
            self.folder = folder
            self.grid = spec.create(folder)

    def pts(self, name):
        if self.shared is None:
            return super().pts(name)
        k = (self.spec.off, self.spec.dt, name)
        if k not in self.shared:
            self.shared[k] = super().pts(name)
        return self.shared[k]

    def step(self, op):
        if op[0] == 'look':
            for r in self.grid.resolutions:
                self.grid.get_layers_by_name(['x_slope', 'y_slope'], r)
                self.grid.get_layers_trimmed(list(self.spec.layers), r, z_positive_up=True)
        elif op[0] == 'add' and self.shared is not None:
            # one list of files, one array, for both grids
            files = self.shared.setdefault('files ' + op[1], ['file_' + op[1]])
            self.grid.add_points(self.pts(op[1]), op[1], files, 26917, 'waterline', progress_bar=False)
            self.model.add(op[1], self.spec.pts(self.world[op[1]]))
        else:
            self.do(op)

    def seen(self):
        return W.snap(self.grid, self.spec), W.tree_digest(self.folder, own=True) if self.folder else b''


def alone(spec, world, history, disk):
    """what is seen after every operation when nobody else is there"""
    with env.scratch() as d:
        c = Live(spec, world, os.path.join(d, 'one') if disk else '', None)
        out = [c.seen()]
        for op in history:
            c.step(op)
            out.append(c.seen())
        return out


def interleavings(n, m):
    for pos in itertools.combinations(range(n + m), n):
        yield [0 if i in pos else 1 for i in range(n + m)]


def compare(exp, got, who, what):
    m = W.diff_snap(exp[0], got[0], names=('alone', 'beside another'))
    W.require(m is None, '{} after {}: {}'.format(who, what, m))
    W.require(exp[1] == got[1], '{} after {}: the files differ from those of a grid that is alone'.format(who, what))


@task
def pair(part, specs, worlds, hists, disks, place, shared):
    sp = [W.Spec(**s) for s in specs]
    hs = [HISTORIES[h] for h in hists]
    # each in a new process: whatever a grid leaves behind in a process is not there
    exp = [apart(alone, sp[i], worlds[i], hs[i], disks[i]) for i in (0, 1)]
    p = apart(together, exp, sp, hs, specs, worlds, hists, disks, place, shared)
    vars(part).update(vars(p))


def together(exp, sp, hs, specs, worlds, hists, disks, place, shared):
    part = Part()
    for order in interleavings(len(hs[0]), len(hs[1])):
        case = {'specs': specs, 'worlds': worlds, 'histories': hists, 'disk': disks, 'place': place, 'shared': shared, 'order': order}

        def one():
            with env.scratch() as d:
                where = [os.path.join(d, 'one'), os.path.join(d, 'one_2') if place == 'beside' else os.path.join(d, 'sub', 'one')]
                pool = {} if shared else None
                live = [Live(sp[i], worlds[i], where[i] if disks[i] else '', pool) for i in (0, 1)]
                at = [0, 0]
                for k, i in enumerate(order):
                    op = hs[i][at[i]]
                    live[i].step(op)
                    at[i] += 1
                    part.transitions += 1
                    for j in (0, 1):
                        part.checks += 1
                        got = live[j].seen()
                        part.state((j, at, got[1], repr(sorted(got[0]['points'])), got[0]['meta']['number_of_tiles'], sorted(got[0]['surface'])))
                        compare(exp[j][at[j]], got, 'grid {}'.format(j + 1), [hists[0], hists[1], order[:k + 1]])
        guarded(part, case, one)
        part.executions += 1
        if full(part):
            return part
    part.sample({'specs': specs, 'histories': hists, 'orders': 'all {} interleavings'.format(len(list(interleavings(len(hs[0]), len(hs[1])))))})
    return part


def plan(run):
    t = run.thorough
    S = W.Spec
    mem = ['grow', 'shrink', 'other', 'again', 'slopes']
    n = 0

    def go(a, b, ha, hb, da, db, place='beside', shared=False, wa='overlap', wb='overlap'):
        nonlocal n
        n += 1
        run.add(pair, specs=[a.json(), b.json()], worlds=[wa, wb], hists=[ha, hb], disks=[da, db], place=place, shared=shared)

    # all pairs of histories in memory
    for ka, kb in (('sr', 'sr'), ('vr', 'vr'), ('sr', 'vr')):
        for ha, hb in itertools.product(mem, mem) if ka != kb else itertools.combinations_with_replacement(mem, 2):
            go(S(kind=ka), S(kind=kb), ha, hb, False, False, shared=(ha, hb) in (('grow', 'grow'), ('grow', 'shrink'), ('shrink', 'shrink')))
    for kind in ('sr', 'vr'):
        for backend in ('numpy', 'zarr'):
            go(S(kind=kind), S(kind=kind, backend=backend), 'auto2', 'auto', False, False, wa='bands', wb='bands')
            go(S(kind=kind, bs=True), S(kind=kind, backend=backend, tile=8.0, off='neg'), 'auto2', 'slopes', False, False, wa='bands', wb='bands')
    # automatic resolutions that the small tiles limit and the large do not
    for ka, kb in (('sr', 'sr'), ('vr', 'vr'), ('sr', 'vr'), ('vr', 'sr')):
        for h in ('auto', 'auto2'):
            go(S(kind=ka), S(kind=kb, tile=128.0, sub=64.0), h, h, False, False, wa='deep', wb='deep')
        go(S(kind=ka, tile=128.0, sub=64.0, backend='zarr'), S(kind=kb, off='neg'), 'dense', 'dense', False, False, wa='deep', wb='bands')
    for ha in ('grow', 'shrink'):
        go(S(kind='vr'), S(kind='vr', tile=8.0, sub=1.0), ha, 'auto', False, False, wb='bands')
        go(S(kind='vr', backend='zarr'), S(kind='vr', off='utm'), ha, 'auto', False, False, wb='bands')
        go(S(kind='sr'), S(kind='sr', bs=True), ha, 'grow', False, False)
        go(S(kind='sr'), S(kind='sr', dt='z'), ha, 'shrink', False, False)
    # on disk, beside one another and one below
    kinds = [('sr', 'numpy'), ('vr', 'numpy'), ('sr', 'zarr'), ('vr', 'zarr')]
    for x, y in itertools.product(kinds, kinds) if t else list(zip(kinds, kinds)) + list(zip(kinds, kinds[1:] + kinds[:1])):
        for ha, hb in (itertools.product(('grow', 'shrink', 'load', 'load2'), repeat=2) if t else (('short', 'short2'), ('short3', 'short4'))):
            if not t and (x[1] == 'zarr' or y[1] == 'zarr') and ha == 'short3' and x != y:
                continue
            go(S(kind=x[0], backend=x[1]), S(kind=y[0], backend=y[1]), ha, hb, True, True, place='beside' if ha in ('load', 'short') else 'sub', shared=ha in ('shrink', 'short3'))
    for kind in ('sr', 'vr'):
        go(S(kind=kind), S(kind=kind), 'short3', 'short', False, True, shared=True)
    run.bound(pairs=n, operations_per_grid=[4, 3] if not t else [4, 4], interleavings_per_pair=[70, 20] if not t else [70, 70], order='in memory, on disk')
    run.assumptions = ['the operations of the two grids alternate in one process; each is finished before the next starts', 'two grids are never given the same folder']
