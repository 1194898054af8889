"""C26 looking at a grid or exporting it changes nothing"""
import copy
import os
import shutil
import warnings

import numpy as np
from osgeo import gdal

import bathygrid.bgrid

from .. import env, ops
from .. import world as W
from ..core import task, guarded, full, Violation
from bathygrid.bgrid import BathyGrid
from bathygrid.convenience import load_grid

gdal.UseExceptions()

LEVEL = 'model_checking'
RULE = ('every read operation in every state that reads can reach from the listed grid states, every ordered pair of reads in some of them, and every read followed by every continuation of up to the stated number of changing operations; each '
        'answer is compared with the answer of an untouched copy, and after every read the grid (all it holds in memory, slopes apart) and every file on disk are compared with what they were')

SLOPES = ('x_slope', 'y_slope')
NODATA = -9999.0


def canon(x):
    """answer of a read as something that can be compared"""
    if hasattr(x, 'compute'):
        x = x.compute()
    if isinstance(x, np.ndarray):
        return ('array', str(x.dtype), x.shape, x.tobytes() if x.dtype != object else tuple(canon(i) for i in x.flat))
    if isinstance(x, (list, tuple)):
        return tuple(canon(i) for i in x)
    if isinstance(x, dict):
        return tuple((k, canon(v)) for k, v in x.items())
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if isinstance(x, (bool, int, str, type(None), np.integer, np.bool_)):
        return repr(x)
    if hasattr(x, 'min_x'):
        return (type(x).__name__, x.name, repr(x.min_x), repr(x.min_y), x.points_count)
    return repr(x)


class Paper:
    """keeps what is drawn, and changes it afterwards as a plot library may"""

    def __init__(self):
        self.drawn = []

    def __getattr__(self, name):
        def f(*a, **k):
            self.drawn.append((name, canon([v for v in a if isinstance(v, (np.ndarray, list, tuple, str, int, float)) or hasattr(v, 'compute')])))
            return self
        return f

    def __iter__(self):
        return iter((self, self))


def on_paper(f):
    paper = Paper()
    keep = bathygrid.bgrid.plt
    bathygrid.bgrid.plt = paper
    try:
        f()
    finally:
        bathygrid.bgrid.plt = keep
    return paper.drawn


def raster(fn):
    ds = gdal.Open(fn)
    out = [canon(ds.GetGeoTransform()), ds.GetProjection()]
    for b in range(ds.RasterCount):
        out.append((canon(ds.GetRasterBand(b + 1).ReadAsArray()), repr(ds.GetRasterBand(b + 1).GetNoDataValue())))
    ds = None
    return tuple(out)


def table(fn):
    """rows of a csv file; slopes are columns of it once they were asked for"""
    rows = [l.split() for l in open(fn)]
    use = [i for i, n in enumerate(rows[0]) if n not in SLOPES]
    return tuple(' '.join(r[i] for i in use) for r in rows)


def exported(g, fmt, **kw):
    with env.scratch() as d:
        g.export(os.path.join(d, 'o.' + fmt), {'tif': 'geotiff'}.get(fmt, fmt), **kw)
        out = []
        for fn in sorted(os.listdir(d)):
            p = os.path.join(d, fn)
            if fn.endswith(('.tif', '.tiff', '.bag')):
                out.append((fn, raster(p)))
            elif fn.endswith('.csv'):
                out.append((fn, table(p)))
            else:
                out.append((fn, None))
        return tuple(out)


def own(x):
    """the answer, to compare; what was returned belongs to the caller, who changes it"""
    out = canon(x)
    spoil(x)
    return out


def spoil(x):
    if isinstance(x, np.ndarray):
        if x.dtype != object and x.flags.writeable:
            if x.dtype.names:
                for n in x.dtype.names:
                    x[n] = 77
            else:
                x[...] = 77
        elif x.dtype == object:
            for i in x.flat:
                spoil(i)
    elif isinstance(x, (list, tuple)):
        for i in x:
            spoil(i)
        if isinstance(x, list):
            x.append('mine')
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x['mine'] = 'mine'


def reads(spec, res):
    """name -> function(grid); the answers are made safe to compare, arrays that belong to the caller are overwritten"""
    L = list(spec.layers)
    Z = L[0]
    r0 = res[0] if res else 1.0
    q = np.array([0.25, 0.625, 1.5, 4.125, 5.5, 60.0, 3.9, 7.25])
    R = {}

    def layers(ls, **kw):
        def f(g):
            return own(g.get_layers_by_name(ls, **kw))
        return f

    for r in res or [1.0]:
        R['layers {}'.format(r)] = layers(L, resolution=r)
        R['positive up {}'.format(r)] = layers(L, resolution=r, z_positive_up=True)
        R['no data {}'.format(r)] = layers(L, resolution=r, nodatavalue=NODATA, z_positive_up=True)
    R['of the tiles'] = lambda g: own([t.get_layers_by_name(l, r0, nodatavalue=nd, z_positive_up=up) for *_, t in W.leaves(g) if r0 in t.cells for l in L for nd in (np.nan, NODATA) for up in (False, True)])
    R['values of the tiles'] = lambda g: own([[t.return_layer_values(l) for l in L] + [t.density_count, t.cell_count] for *_, t in W.leaves(g)])
    R['every tile'] = lambda g: own([g.get_tile_data(r, c, r0, L)[1:] for r in range(g.tiles.shape[0]) for c in range(g.tiles.shape[1]) if g.tiles[r, c] is not None])
    R['every tile up'] = lambda g: own([g.get_tile_data(r, c, r0, L, NODATA, True)[1:] for r in range(g.tiles.shape[0]) for c in range(g.tiles.shape[1]) if g.tiles[r, c] is not None])
    R['container A'] = lambda g: own(container(g, 'A', r0))
    R['container B'] = lambda g: own(container(g, 'B', r0))
    R['slopes'] = layers(list(SLOPES), resolution=r0)
    R['trimmed'] = lambda g: own(g.get_layers_trimmed(L, r0, nodatavalue=NODATA, z_positive_up=True))
    R['xyz'] = lambda g: own(g.return_surf_xyz(Z, r0))
    R['nodes'] = lambda g: own(g.return_surf_xyz(L, r0, cell_boundaries=False, nodatavalue=NODATA))
    R['tiles'] = lambda g: own(list(g.get_tiles_by_resolution(r0, L, nodatavalue=NODATA, z_positive_up=True)))
    R['tiles plain'] = lambda g: own(list(g.get_tiles_by_resolution(r0, L)))
    R['trimmed plain'] = lambda g: own(g.get_layers_trimmed(L, r0))
    R['chunks plain'] = lambda g: own(list(g.get_chunks_of_tiles(r0, L, override_maximum_chunk_dimension=spec.tile / r0, for_gdal=False)))
    R['chunks'] = lambda g: own(list(g.get_chunks_of_tiles(r0, L, NODATA, True, override_maximum_chunk_dimension=spec.tile / r0)))
    R['positions'] = lambda g: own(g.layer_values_at_xy(q.copy(), q[::-1].copy(), Z))
    R['position'] = lambda g: own(g.layer_values_at_xy(0.5, 0.5, 'density', r0))
    for l in L:
        R['values ' + l] = lambda g, l=l: own(g.return_layer_values(l))
    for a in ('cell_count', 'density_count', 'density_per_square_meter', 'density_count_vs_depth', 'density_per_square_meter_vs_depth', 'coverage_area_square_meters', 'coverage_area_square_nm',
              'point_count_changed', 'no_grid', 'is_empty', 'points_count', 'has_vertical_uncertainty', 'has_horizontal_uncertainty', 'positive_up', 'unique_container_entries', 'depth_key'):
        R[a] = lambda g, a=a: own(getattr(g, a))
    R['layer names'] = lambda g: own([l for l in g.return_layer_names() if l not in SLOPES] + ['|'] + [l for l in g.layer_names if l not in SLOPES])
    R['extents'] = lambda g: own(g.return_extents())
    R['containers'] = lambda g: own([g.return_unique_containers(), g.get_geotransform(r0)])
    R['attribution'] = lambda g: own(g.return_attribution())
    R['repr'] = lambda g: repr(g)
    R['neighbours'] = lambda g: own([g.get_tile_neighbors(t) for t in g.tiles.flat if t is not None] if g.tiles is not None else None)
    R['neighbour points'] = lambda g: own(near(g, spec.tile))
    R['resolution by density'] = lambda g: own(g.resolution_by_density(4.0))
    R['suggested'] = lambda g: own([g._calculate_resolution_lookup()])
    R['boundaries'] = lambda g: own(g.get_tile_boundaries())
    R['plot'] = lambda g: on_paper(lambda: g.plot(Z, r0))
    R['plot all'] = lambda g: on_paper(lambda: g.plot('density'))
    for h in ('density', 'density_per_square_meter', 'z', 'vertical_uncertainty', 'total_uncertainty', 'horizontal_uncertainty'):
        R['histogram ' + h] = lambda g, h=h: on_paper(lambda: getattr(g, 'plot_{}_histogram'.format(h))(5))
    for h in ('density', 'density_per_square_meter'):
        R['plot {} by depth'.format(h)] = lambda g, h=h: on_paper(lambda: getattr(g, 'plot_{}_vs_depth'.format(h))(5))
    X = {'csv': lambda g: exported(g, 'csv', z_positive_up=True), 'csv down': lambda g: exported(g, 'csv', z_positive_up=False),
         'tif': lambda g: exported(g, 'tif', z_positive_up=True), 'tif down': lambda g: exported(g, 'tif', z_positive_up=False, override_maximum_chunk_dimension=spec.tile / r0)}
    if not spec.bs:
        X['bag'] = lambda g: exported(g, 'bag')
    return R, X


def container(g, c, r):
    return [g.get_layers_by_name(l, r) for l in (c, [g.depth_key, c], [c, 'density'])]


def near(g, size):
    out = []
    for t in (g.tiles.flat if g.tiles is not None else []):
        if t is not None:
            out.append(g.get_tile_neighbor_points(t, size / 2))
    return out


def ask(f, g):
    """answer of a read; one that is refused is an answer too"""
    try:
        return ('answer', f(g))
    except Violation:
        raise
    except Exception as e:
        return ('refused', type(e).__name__)


def bare(g):
    """digest of all the grid holds, slopes apart"""
    kept = []
    for *_, t in W.leaves(g):
        for r, cells in t.cells.items():
            for s in SLOPES:
                if s in cells:
                    kept.append((cells, s, cells.pop(s)))
    try:
        return W.state_digest(g)
    finally:
        for cells, s, v in kept:
            cells[s] = v


def debruijn(n):
    """closed walk over all ordered pairs of n symbols"""
    if n == 1:
        return [0, 0]
    out, a = [], [0] * (2 * n)

    def db(t, p):
        if t > 2:
            if 2 % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, n):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:1]


class Subject:
    """one grid state: how to make as many equal grids as needed"""

    def __init__(self, spec, world, history, disk):
        self.spec, self.world, self.history = spec, world, history
        self.ctx = ops.Ctx(spec, world, disk)
        for op in history:
            self.ctx.do(op)
        self.base = self.ctx.snapshot()

    def fresh(self):
        self.ctx.restore(self.base)
        return self.ctx.grid

    def look(self):
        g = self.ctx.grid
        return bare(g), W.tree_digest(self.ctx.folder) if self.ctx.folder else b'', repr((g.output_folder, g.container_timestamp, g.client, g.storage_class))

    def close(self):
        self.ctx.close()


def resolutions(g):
    return sorted({float(r) for *_, t in W.leaves(g) for r in t.cells})


def unchanged(before, after, what):
    for a, b, n in zip(before, after, ('what the grid holds in memory', 'the files of the grid', 'the folder or time stamps of the grid')):
        if a != b:
            raise Violation('{} changed {}'.format(what, n))


@task
def pairs(part, spec, world, history, disk, every):
    """every read from the state and from the state with slopes, which are all the states reads may reach; with every, a walk over all ordered pairs of reads and exports next to every read"""
    sp = W.Spec(**spec)
    case0 = {'spec': spec, 'world': world, 'history': history, 'disk': disk}
    s = Subject(sp, world, history, disk)
    try:
        R, X = reads(sp, resolutions(s.ctx.grid))
        names = list(R)
        want = {}
        part.sample(dict(case0, reads=len(names), exports=len(X)))
        start = s.look()
        part.state(start)
        for n, f in list(R.items()) + list(X.items()):
            s.fresh()
            want[n] = ask(f, s.ctx.grid)
            part.count('answers' if want[n][0] == 'answer' else 'refusals')
            part.outcome((n, want[n]))
        both = names + list(X)
        walk = [n for n in both if n != 'slopes'] + ['slopes'] + both[::-1] + both[::2] + both[1::2]
        if every:
            walk += [names[i] for i in debruijn(len(names))]
            # every export before and after every read
            for x in X:
                for n in both:
                    walk += [n, x]
                walk += names[:1]
        s.fresh()
        prev = None
        for n in walk:
            f = R.get(n) or X[n]
            case = dict(case0, reads=[prev, n])

            def one():
                got = ask(f, s.ctx.grid)
                W.require(got == want[n], 'after {} the answer to {} differs: {} instead of {}'.format(prev, n, repr(got)[:300], repr(want[n])[:300]))
                unchanged(start, s.look(), n)
            part.transitions += 1
            part.checks += 2
            if not guarded(part, case, one):
                s.fresh()
                if full(part):
                    return
            prev = n
        part.executions += 1
    finally:
        s.close()


def continuations(ctx, alphabet, depth):
    """snaps after every continuation"""
    out = {}

    def rec(h, left):
        if not left:
            return
        todo = [op for op in alphabet if ctx.enabled(op)]
        s = ctx.snapshot()
        for op in todo:
            ctx.restore(s)
            ctx.do(op)
            k = h + [op]
            out[repr(k)] = (W.snap(ctx.grid, ctx.spec), W.tree_digest(ctx.folder) if ctx.folder else b'')
            rec(k, left - 1)
        ctx.drop(s)
    rec([], depth)
    return out


@task
def then(part, spec, world, history, disk, alpha, depth, start, step):
    """every read, then every continuation"""
    sp = W.Spec(**spec)
    s = Subject(sp, world, history, disk)
    try:
        R, X = reads(sp, resolutions(s.ctx.grid))
        allr = dict(R, **X)
        s.fresh()
        want = continuations(s.ctx, alpha, depth)
        for i, (n, f) in enumerate(allr.items()):
            if i % step != start:
                continue
            case = {'spec': spec, 'world': world, 'history': history, 'disk': disk, 'read': n}

            def one():
                s.fresh()
                ask(f, s.ctx.grid)
                got = continuations(s.ctx, alpha, depth)
                W.require(sorted(got) == sorted(want), 'after {} other operations are possible'.format(n))
                for k in want:
                    part.checks += 1
                    m = W.diff_snap(want[k][0], got[k][0], names=('without the read', 'with it'))
                    W.require(m is None, 'after {} and {}: {}'.format(n, k, m))
                    W.require(want[k][1] == got[k][1] or n == 'slopes', 'after {} and {}: the files differ'.format(n, k))
            part.executions += len(want)
            part.transitions += len(want)
            part.sample(case)
            guarded(part, case, one)
            if full(part):
                return
    finally:
        s.close()


G1 = ['grid', 'mean', 1.0, 'full']
GS = ['grid', 'shoalest', 2.0, 'full']
GA = ['grid', 'mean', None, 'full', 'depth']
GU = ['grid', 'mean', 1.0, 'update']
A, B, C = ['add', 'A'], ['add', 'B'], ['add', 'C']


def histories(kind):
    h = [[A, B, G1], [A, G1, ['grid', 'mean', 2.0, 'full']], [A, B, G1, ['rm', 'B']], [A, GS, B], [A, B]]
    if kind == 'vr':
        h += [[A, B, GA], [A, GA, C, ['grid', 'mean', None, 'update', 'depth'], ['rm', 'A']]]
    return h


def plan(run):
    t = run.thorough
    S = W.Spec
    n = 0
    for kind in ('sr', 'vr'):
        for i, h in enumerate(histories(kind)):
            for backend, disk, rel in (('numpy', False, False), ('zarr', False, False), ('numpy', True, False), ('numpy', True, True), ('zarr', True, False), ('zarr', True, True)):
                hh = h + ([['reload']] if rel else [])
                run.add(pairs, spec=S(kind=kind, backend=backend).json(), world='bands' if kind == 'vr' else 'overlap', history=hh, disk=disk, every=t or (i < 2 and backend == 'numpy' and not disk))
                n += 1
    for bs in (S(bs=True), S(kind='vr', bs=True, off='utm'), S(dt='z', off='utm'), S(kind='vr', dt='f64')):
        run.add(pairs, spec=bs.json(), world='overlap', history=[A, B, G1], disk=False, every=t)
    run.add(pairs, spec=S().json(), world='overlap', history=[], disk=False, every=t)
    run.add(pairs, spec=S(kind='vr').json(), world='overlap', history=[A, ['rm', 'A']], disk=False, every=t)
    alpha = [['rm', 'A'], C, G1, GU]
    steps = 4
    for kind in ('sr', 'vr'):
        for backend, disk, rel in (('numpy', False, False), ('zarr', False, False), ('numpy', True, True), ('zarr', True, True)):
            for h in ([A, B, G1], [A, G1, B]) if t or not disk else ([A, G1, B],):
                for st in range(steps):
                    run.add(then, spec=S(kind=kind, backend=backend).json(), world='overlap', history=h + ([['reload']] if rel else []), disk=disk, alpha=alpha + ([['reload']] if disk and t else []),
                            depth=(3 if not disk else 2) if t else (2 if not disk else 1), start=st, step=steps)
    run.bound(grid_states=n + 6, continuation_operations=[2, 1] if not t else [3, 2])
    run.assumptions = ['slope layers are kept by the tiles once they were asked for; they are left out of the comparison of what the grid holds (C22 judges them)',
                       'rasters are compared by what GDAL reads from them']
