"""C16 a container query is the surface of that container alone"""
import itertools

import numpy as np

from .. import ops
from .. import world as W
from ..core import task, guarded
from bathygrid.convenience import load_grid

LEVEL = 'model_checking'
RULE = ('every history of adds, removals, griddings and reloads up to the stated length; in every gridded state every container is asked for, alone and with other layers in every order, '
        'through all access functions, and the grid compared before and after')

# names that are parts of one another and of layer names, sharing cells, tiles and borders
NAMES = {
    'A': W.OVERLAP['A'] + W.rows((0.25, 0.25, 10.5), (0.125, 0.375, 10.), (0.375, 0.125, 10.), seed=9),   # means that are no multiple of a millimetre
    'A_density': W.OVERLAP['B'],
    'depth_A': W.OVERLAP['C'] + W.rows((0.875, 0.25, 10.5), (0.75, 0.75, 12.), seed=7),
}
SPREAD = {
    'A': W.BANDS['A'] + W.rows((0.25, 0.25, 7.5), (2.25, 0.25, 14.25), (0.125, 0.375, 8.), (0.375, 0.125, 8.), seed=5),
    'A_0': W.BANDS['B'],
    'A_density': W.BANDS['C'] + W.rows((0.25, 0.125, 7.), seed=6),
}


class Ctx(ops.Ctx):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.leafres = {}
        self.ready = False

    def do(self, op):
        super().do(op)
        if op[0] == 'add':
            self.ready = False
        elif op[0] == 'grid':
            self.ready = True
            o = ops.gridop(op)
            size = self.leafsize()
            if o['res'] is not None:
                self.leafres = {k: float(o['res']) for k in self.model.by_square(size)}
            elif self.spec.kind == 'sr':
                r = W.lookup(self.model.mean_depth(), size)
                self.leafres = {k: r for k in self.model.by_square(size)}
            else:
                self.leafres = W.leaf_resolutions(self.model, size)

    def snapshot(self):
        return super().snapshot(), dict(self.leafres), self.ready

    def restore(self, s):
        super().restore(s[0])
        self.leafres, self.ready = dict(s[1]), s[2]

    def drop(self, s):
        super().drop(s[0])

    def key(self):
        return super().key() + (tuple(sorted(self.leafres.items())), self.ready)


def expect(c, name, res):
    n = c.leafsize() / res
    s = c.model.surface(res, c.last['alg'], {name})
    return {k: v[c.spec.depth] for k, v in s.items() if c.leafres.get((W.fdiv(k[0], n), W.fdiv(k[1], n))) == res}


_alone = {}


def alone(c, name, res):
    """the surface of a grid that holds only this container, at this resolution in all tiles"""
    k = (repr(sorted(c.spec.json().items())), name, c.last['alg'], res)
    if k not in _alone:
        s = W.Spec(**dict(c.spec.json(), backend='numpy'))
        g = s.create()
        g.add_points(c.pts(name), name, ['f'], 26917, 'waterline', progress_bar=False)
        g.grid(c.last['alg'], res, progress_bar=False)
        _alone[k] = values(g, g.get_layers_by_name(s.depth, res)[0], res)
    return _alone[k]


def values(grid, arr, res, nodata=np.nan):
    if arr is None:
        return {}
    arr = W.npa(arr)
    bx, by = int(round(grid.min_x / res)), int(round(grid.min_y / res))
    idx = np.argwhere(~np.isnan(arr) if np.isnan(nodata) else arr != np.float32(nodata))
    return {(int(bx + x), int(by + y)): float(arr[y, x]) for y, x in idx}


def same(exp, got, what, tol=W.TOL):
    for k in sorted(set(exp) | set(got)):
        W.require(k not in exp or exp[k] is not None, '{}: cell {} should be empty and is {}'.format(what, k, got.get(k)))
        W.require(k in got, '{}: cell {} should be {} and is empty'.format(what, k, exp.get(k)))
        W.require(k in exp, '{}: cell {} should be empty and is {}'.format(what, k, got.get(k)))
        W.require(abs(exp[k] - got[k]) <= tol, '{}: cell {} should be {} and is {}'.format(what, k, exp[k], got[k]))


def look(part, c, deep, seen):
    if not c.ready or not c.last or not c.model.held or c.grid.no_grid:
        return
    k = W.digest_of(c.key(), [type(t.data).__name__ for *_, t in W.leaves(c.grid)])
    if k in seen:
        return
    seen.add(k)
    g = c.grid
    held = sorted(c.model.held)
    before = W.state_digest(g)
    disk = W.tree_digest(c.folder) if c.folder else b''
    names = list(g.layer_names)
    for res in sorted(set(c.leafres.values())):
        if res not in g.resolutions:
            continue
        exp = {n: expect(c, n, res) for n in held}
        ref = {n: alone(c, n, res) for n in held}
        plain = {l: values(g, (g.get_layers_by_name(l, res) or [None])[0], res, 0 if l == 'density' else np.nan) for l in (c.spec.depth, 'density')}
        if not plain[c.spec.depth]:
            continue   # all tiles at this resolution went with their points
        exp.update(plain)
        # one entry must be the container, the others are compared with what they are alone
        ask = held + [c.spec.depth, 'density']
        lists = [p for n in (1, 2) for p in itertools.permutations(ask, n) if set(p) & set(held)]
        lists += [p for p in itertools.permutations(ask, len(ask))][:: (1 if deep else 31)]
        lists += [(n, n) for n in held]
        for lst in lists:
            got = g.get_layers_by_name(list(lst) if len(lst) > 1 else lst[0], res)
            part.checks += 1
            what = 'layers {} at {}'.format(list(lst), res)
            if got is None:
                got = [None] * len(lst)
            W.require(len(got) == len(lst), '{}: {} layers returned'.format(what, len(got)))
            for l, a in zip(lst, got):
                v = values(g, a, res, 0 if l == 'density' else np.nan)
                same(exp[l], v, '{}: {}'.format(what, l))
                if l in ref:   # not only close to the statistic, but what gridding the container alone gives
                    same({k: ref[l].get(k) for k in v}, v, '{}: {}, by gridding it alone'.format(what, l), 1e-6)
        for n in held:
            for nd in (-9999.0, 0.0, 1e6) if deep else (-9999.0,):
                got = g.get_layers_by_name([n], res, nodatavalue=nd)
                same(exp[n], values(g, got and got[0], res, nd), 'container {} at {} with no data {}'.format(n, res, nd))
            # single tiles
            cells = {}
            for r in range(g.tiles.shape[0]):
                for q in range(g.tiles.shape[1]):
                    if g.tiles[r, q]:
                        tile, data, geo, *_ = g.get_tile_data(r, q, res, [n])
                        if n in data:
                            cells.update(values(tile, data[n], res))
            same(exp[n], cells, 'container {} at {} tile by tile'.format(n, res))
            # values at positions: the centre of every cell of the surface
            pos = sorted(plain[c.spec.depth])
            x = np.array([(k[0] + 0.5) * res for k in pos])
            y = np.array([(k[1] + 0.5) * res for k in pos])
            v = g.layer_values_at_xy(x, y, n, res)
            same(exp[n], {k: float(a) for k, a in zip(pos, v) if not np.isnan(a)}, 'container {} at {} asked by position'.format(n, res))
            part.checks += 5
        if deep:
            for n in held:
                if exp[n]:
                    a, lims = g.get_layers_trimmed([n], res)[0:2]
                    ks = sorted(exp[n])
                    W.require(len(values(g, a[0], res)) == len(ks), 'container {} at {} trimmed: {} cells, should be {}'.format(n, res, len(values(g, a[0], res)), len(ks)))
                    part.checks += 1
    # asked by position without a resolution
    for n in held:
        exp = {}
        for res in sorted(set(c.leafres.values())):
            if res in g.resolutions:
                for k, v in expect(c, n, res).items():
                    exp[((k[0] + 0.5) * res, (k[1] + 0.5) * res)] = v
        if exp:
            pos = sorted(exp)
            v = g.layer_values_at_xy(np.array([q[0] for q in pos]), np.array([q[1] for q in pos]), n)
            for q, a in zip(pos, v):
                W.require(abs(float(a) - exp[q]) <= W.TOL, 'container {} at position {} should be {} and is {}'.format(n, q, exp[q], a))
            part.checks += 1
    W.require(list(g.layer_names) == names, 'the queries changed the layer names from {} to {}'.format(names, g.layer_names))
    W.require(W.state_digest(g) == before, 'the queries changed the grid in memory')
    if c.folder:
        W.require(W.tree_digest(c.folder) == disk, 'the queries changed the grid on disk')


@task
def explore(part, spec, world, alpha, prefix, depth, disk, deep):
    ctx = Ctx(W.Spec(**spec), world, disk)
    seen = set()
    try:
        def chk(c, op, h, b):
            look(part, c, deep, seen)
            if c.folder and op[0] not in ('reload', 'add') and c.ready:
                keep = c.grid
                c.grid = load_grid(c.folder)
                try:
                    look(part, c, deep, seen)
                finally:
                    c.grid = keep
            part.outcome(W.state_digest(c.grid))
        ops.explore(part, ctx, prefix, alpha, depth, chk)
    finally:
        ctx.close()


def plan(run):
    t = run.thorough
    for kind in ('sr', 'vr'):
        world = NAMES if kind == 'sr' else SPREAD
        for backend in ('numpy', 'zarr'):
            for disk in (False, True):
                for bs in (False, True) if backend == 'numpy' and kind == 'vr' and not disk else (False,):
                    names = list(world)
                    g = [['grid', 'mean', 1.0, 'full', None, True], ['grid', 'shoalest', None, 'full', 'depth', True], ['grid', 'mean', 1.0, 'update', None, False], ['grid', 'mean', 0.5, 'full', None, False]]
                    if not t and disk:
                        g = g[:3]
                    a = [['add', n] for n in names] + [['rm', n] for n in names] + g
                    for p in ops.prefixes(a, 2):
                        if p[0][0] == 'add' and (p[1][0] in ('add', 'grid')):
                            d = (2 if not disk or kind == 'vr' and backend == 'numpy' else 1) if not t else 3 if disk else 4
                            if not disk and backend == 'numpy' and not t and kind == 'sr':
                                d = 3
                            run.add(explore, spec=W.Spec(kind=kind, backend=backend, bs=bs).json(), world=world, alpha=a, prefix=p, depth=d, disk=disk, deep=t)
    run.bound(operations=5 if not t else 6, containers=3, layer_lists='all permutations of one and two, permutations of all')
    run.assumptions = ['points added after the last gridding are gridded first (a container query needs a gridded surface)', 'container names are not names of layers']
