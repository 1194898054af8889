"""C19 backscatter grids behave like depth grids with an intensity layer"""
import os

import numpy as np

from . import c08, c13
from .. import env
from .. import ops
from .. import sched
from .. import world as W
from ..core import task, guarded, Violation
from bathygrid.bgrid import BathyGrid
from bathygrid.convenience import load_grid

LEVEL = 'model_checking'
RULE = ('every history of adds, removals, sequential and parallel griddings and reloads up to the stated length on backscatter grids; in every state all layers of all tiles, all sign options, '
        'the exports of every gridded state and the refusal of BAG')

DB = {
    'A': W.rows((0.5, 0.5, -10.), (3.875, 1.0, -32.5), (4.0, 0.0, -17.), (1.25, 2.0, -11.), seed=0),
    'B': W.rows((0.625, 0.75, -21.), (2.0, 2.0, -25.), (0.25, 4.0, -29.), (5.5, 1.5, 3.5), (0.875, 0.875, -38.5), seed=1),
    'C': W.rows((0.75, 0.5, -40.), (-0.125, -3.5, 0.), (2.5, 0.125, -46.5), seed=2),
}


class Ctx(ops.Ctx):
    def __init__(self, *a, vref='waterline', **kw):
        self.vref = vref
        super().__init__(*a, **kw)

    def do(self, op):
        if op[0] == 'add':
            arr = self.pts(op[1])
            self.grid.add_points(arr, op[1], ['file_' + op[1]], 26917, self.vref, min_time=1600000000, max_time=1600000100, progress_bar=False)
            self.model.add(op[1], self.pts(op[1]))
            self.fresh = False
        elif op[0] == 'par':
            cl = sched.Client(2, lambda b, n: list(range(n))[::-1])
            with sched.controlled(cl):
                c08.par_grid(self, ['grid'] + list(op[1:]), cl)
            self.last = {x: ops.gridop(['grid'] + list(op[1:]))[x] for x in ('alg', 'res', 'auto')}
            self.fresh = True
        else:
            super().do(op)

    def enabled(self, op):
        return super().enabled(['grid'] + list(op[1:]) if op[0] == 'par' else op)


def every_tile(g):
    for t in g.tiles.flat:
        if t:
            yield t
            if isinstance(t, BathyGrid):
                for s in t.tiles.flat:
                    if s:
                        yield s


def layers(part, c):
    g = c.grid
    part.checks += 1
    W.require(g.is_backscatter is True, 'is_backscatter is {}'.format(g.is_backscatter))
    W.require(g.depth_key == 'intensity', 'the layer is called {}'.format(g.depth_key))
    if g.is_empty:
        return
    for t in every_tile(g):
        W.require(t.is_backscatter is True, 'is_backscatter of tile {} is {}'.format(t.name, t.is_backscatter))
        W.require('depth' not in t.layer_names, 'tile {} has layers {}'.format(t.name, t.layer_names))
        W.require(not t.layer_names or 'intensity' in t.layer_names, 'tile {} has layers {}'.format(t.name, t.layer_names))
    if g.no_grid:
        return
    W.require(sorted(g.layer_names) == sorted(c.spec.layers) and sorted(g.return_layer_names()) == sorted(c.spec.layers), 'layers are {} and {}, should be {}'.format(g.layer_names, g.return_layer_names(), c.spec.layers))
    for res in g.resolutions:
        try:
            d = g.get_layers_by_name('depth', res)
        except Exception:
            d = None
        W.require(d is None or np.isnan(d[0]).all(), 'a backscatter grid returned depths')


def signs(part, c):
    """sign options have no effect"""
    g = c.grid
    for res in g.resolutions:
        for nd in (np.nan, -9999.0):
            for lyr in (['intensity'], c.spec.layers):
                a, b = [g.get_layers_by_name(lyr, res, nodatavalue=nd, z_positive_up=z) for z in (False, True)]
                same(lyr, a, b, 'layers')
                a, b = [g.get_layers_trimmed(lyr, res, nodatavalue=nd, z_positive_up=z)[0] for z in (False, True)]
                same(lyr, a, b, 'trimmed layers')
        a, b = [list(g.get_tiles_by_resolution(res, ['intensity'], z_positive_up=z)) for z in (False, True)]
        W.require(len(a) == len(b), 'tiles by resolution')
        for x, y in zip(a, b):
            W.require(sorted(x[-1]) == sorted(y[-1]), 'tiles by resolution')
            for l in x[-1]:
                same([l], [x[-1][l]], [y[-1][l]], 'tile')
        for dim in (4.0, 8.0, None):
            kw = {} if dim is None else {'override_maximum_chunk_dimension': dim}
            a, b = [[(tuple(gt), md, {k: v.copy() for k, v in d.items()}) for gt, md, d in g.get_chunks_of_tiles(res, ['intensity'], z_positive_up=z, nodatavalue=-9999.0, **kw)] for z in (False, True)]
            W.require(len(a) == len(b), 'chunks')
            for x, y in zip(a, b):
                W.require(x[0] == y[0], 'chunks')
                same(['intensity'], [x[2]['intensity']], [y[2]['intensity']], 'chunk')
        part.checks += 8


def same(names, a, b, what):
    for l, x, y in zip(names, a, b):
        x, y = W.npa(x).astype(float), W.npa(y).astype(float)
        W.require(x.shape == y.shape and ((x == y) | (np.isnan(x) & np.isnan(y))).all(), '{}: {} changes with the sign option'.format(what, l))


def exports(part, c, deep):
    g, spec = c.grid, c.spec
    surfs = W.expected(c.model, **c.last)
    with env.scratch() as d:
        n = 0
        for zp in (True, False):
            for fn, extra in ((c13.csv, ()), (c13.geotiff, (None, 26917))) + (((c13.geotiff, (4.0, 26917)),) if deep else ()):
                n += 1
                p = os.path.join(d, str(n))
                os.mkdir(p)
                fn(g, p, spec, surfs, zp, None, -1.0, *extra)
                part.checks += 1
        p = os.path.join(d, 'bag')
        os.mkdir(p)
        for fmt in ('bag', 'BAG'):
            try:
                g.export(os.path.join(p, 'x.bag'), fmt)
            except ValueError:
                pass
            else:
                raise Violation('a backscatter grid was exported as BAG')
        W.require(not os.listdir(p), 'the refused BAG export left {}'.format(os.listdir(p)))


def look(part, c, seen, deep):
    layers(part, c)
    if c.last and c.model.held and c.fresh:
        W.check_surface(c.grid, c.model, c.last['alg'], c.last['res'], c.last['auto'])
        k = repr((sorted(c.model.held), c.last))
        if k not in seen:
            seen.add(k)
            signs(part, c)
            exports(part, c, deep)
    elif not c.grid.no_grid and not c.grid.is_empty and deep:
        signs(part, c)


@task
def explore(part, spec, world, alpha, prefix, depth, disk, vref, deep):
    ctx = Ctx(W.Spec(**spec), world, disk, vref=vref)
    seen, seen2 = set(), set()
    try:
        def chk(c, op, h, b):
            look(part, c, seen, deep)
            if c.folder and op[0] in ('grid', 'par', 'rm') and c.model.held:
                keep = c.grid
                c.grid = load_grid(c.folder)
                try:
                    look(part, c, seen2, deep)
                    d = W.diff_snap(W.snap(keep, c.spec), W.snap(c.grid, c.spec), names=('live', 'loaded'))
                    W.require(d is None, d)
                finally:
                    c.grid = keep
            elif op[0] in ('grid', 'par') and (deep or not seen2):
                seen2.add('saved')
                with env.scratch() as d:
                    keep = c.grid
                    was = W.snap(keep, c.spec)
                    import copy
                    dup = copy.deepcopy(keep)
                    dup.save(os.path.join(d, 's'), progress_bar=False)
                    c.grid = load_grid(os.path.join(d, 's'))
                    try:
                        layers(part, c)
                        W.check_surface(c.grid, c.model, c.last['alg'], c.last['res'], c.last['auto'], 'after saving and loading')
                        m = W.diff_snap(was, W.snap(c.grid, c.spec), names=('before saving', 'loaded'))
                        W.require(m is None, m)
                    finally:
                        c.grid = keep
            part.outcome(W.state_digest(c.grid))
        ops.explore(part, ctx, prefix, alpha, depth, chk)
    finally:
        ctx.close()


def plan(run):
    t = run.thorough
    i = 0
    for kind in ('sr', 'vr'):
        for wname, world in (('db', DB), ('bands', W.BANDS)):
            if wname == 'bands' and kind == 'sr':
                continue
            for backend in ('numpy', 'zarr'):
                for disk in (False, True):
                    names = list(world)
                    g = [['grid', 'mean', 1.0, 'full', None, True], ['par', 'shoalest', None, 'full', 'depth', True], ['grid', 'mean', 1.0, 'update', None, False], ['par', 'mean', 1.0, 'update', None, False], ['grid', 'shoalest', None, 'full', 'depth', True]]
                    a = [['add', n] for n in names] + [['rm', n] for n in names[:2]] + (g if t else g[:3]) + ([['reload']] if disk else [])
                    for p in ops.prefixes([x if x[0] != 'par' else ['grid', 'par'] + x[1:] for x in a], 2):
                        p = [x if x[:2] != ['grid', 'par'] else ['par'] + x[2:] for x in p]
                        if p[0][0] != 'add' or (not t and p[1][0] in ('rm', 'reload')):
                            continue
                        i += 1
                        run.add(explore, spec=W.Spec(kind=kind, backend=backend, bs=True, off='utm', dt='f32' if i % 3 else 'z').json(), world=world, alpha=a, prefix=p, depth=(1 if disk else 2) if not t else (2 if disk else 3),
                                disk=disk, vref=c13.HEIGHT if i % 2 else 'waterline', deep=t)
    run.bound(operations=4 if not t else 5, schedules='one (last task first); all schedules of the same code are explored in C08')
