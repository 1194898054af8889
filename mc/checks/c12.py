"""C12 chunks cover the gridded area exactly once, in bounds and in place"""
import itertools

import numpy as np

from .. import arrange as A
from .. import env
from .. import world as W
from ..core import task, guarded, full, Violation
from bathygrid.convenience import load_grid
from bathygrid.grid_variables import maximum_chunk_dimension

LEVEL = 'exploration'
RULE = ('every occupied subset of the tile lattices in the bounds (and every arrangement of missing, ungridded and gridded tiles of the smaller ones), every maximum dimension from below one tile '
        'to beyond the lattice, both orientations, several layer lists and no-data values; the chunks together are compared with the surface computed from the points')


def chunks(part, g, spec, surf, res, maxdim, layers, nod, zp, gdal, pos):
    T = spec.tile
    seen = {l: {} for l in layers}
    boxes = []
    what = 'maximum {} resolution {} layers {} nodata {} positive up {} gdal {}'.format(maxdim, res, layers, nod, zp, gdal)
    n = 0
    given = {} if maxdim is None else {'override_maximum_chunk_dimension': maxdim}
    maxdim = maximum_chunk_dimension if maxdim is None else maxdim
    for geo, dim, data in g.get_chunks_of_tiles(res, layers, nodatavalue=nod, z_positive_up=zp, for_gdal=gdal, **given):
        n += 1
        part.checks += 1
        W.require([float(v) for v in geo][1:3] == [res, 0.0] and [float(v) for v in geo][4:] == [0.0, -res], '{}: georeference {}'.format(what, geo))
        W.require(sorted(data) == sorted(set(layers)), '{}: chunk holds {}'.format(what, sorted(data)))
        x0, y1 = float(geo[0]), float(geo[3])
        any_cell = False
        shape = None
        for l in layers:
            d = np.asarray(W.npa(data[l]), dtype=np.float64)
            if gdal:
                d = np.fliplr(d).T      # back to rows from south to north, columns from west to east
            W.require(shape is None or d.shape == shape, '{}: layers of different shape'.format(what))
            shape = d.shape
            y0 = y1 - d.shape[0] * res
            bx, by = (x0 / res), (y0 / res)
            W.require(bx == int(bx) and by == int(by), '{}: georeference {} is off the cells'.format(what, geo))
            blank = np.isnan(d) if np.isnan(nod) else d == nod
            if l == 'density':
                blank = blank | (d == 0)
            for r, c in np.argwhere(~blank):
                k = (int(bx) + int(c), int(by) + int(r))
                W.require(k not in seen[l], '{}: cell {} of {} is in two chunks'.format(what, k, l))
                seen[l][k] = d[r, c]
                any_cell = True
        w, h = shape[1] * res, shape[0] * res
        W.require(float(dim) == max(w, h), '{}: chunk of {} by {} reports {}'.format(what, w, h, dim))
        W.require(w <= max(maxdim, T) and h <= max(maxdim, T), '{}: chunk is {} by {}'.format(what, w, h))
        W.require(any_cell, '{}: chunk at {} holds no data'.format(what, geo))
        box = (x0, y0, x0 + w, y1)
        boxes.append(box)
    for l in layers:
        flip = -1.0 if l == 'depth' and zp != pos else 1.0
        exp = {k: st[l] for k, st in surf.items() if l in st}
        W.require(set(exp) == set(seen[l]), '{}: cells {} are missing, {} should not be there'.format(what, sorted(set(exp) - set(seen[l]))[:4], sorted(set(seen[l]) - set(exp))[:4]))
        for k, v in exp.items():
            W.require(v is None or abs(flip * v - seen[l][k]) <= W.TOL + 1e-6 * abs(v), '{}: {} of cell {} is {}, should be {}'.format(what, l, k, seen[l][k], None if v is None else flip * v))
    return boxes


def look(part, g, spec, surfs, dims, some):
    pos = 'height' in (g.vertical_reference or '')
    names = list(spec.layers)
    for res, surf in surfs.items():
        seen = []
        for i, md in enumerate(dims):
            for j, (layers, nod, zp, gdal) in enumerate(((names, np.nan, False, True), (names[::-1], -9999.0, True, False), (names[:1], 1000000.0, True, True), ([names[-1]], np.nan, False, False))):
                if some and j > 1 and (i + j) % 3:
                    continue
                seen.append(chunks(part, g, spec, surf, res, md, layers, nod, zp, gdal, pos))
        part.outcome((spec.kind, res, seen))
    # a name alone, and the default maximum, which is larger than any of these grids
    res, surf = sorted(surfs.items())[0]
    l = list(g.get_chunks_of_tiles(res, names[0], override_maximum_chunk_dimension=10 ** 6))
    l2 = list(g.get_chunks_of_tiles(res, names[0]))
    W.require(len(l) == 1 and len(l2) == 1 and list(l[0][2]) == [names[0]], 'one chunk expected, got {} and {}'.format(len(l), len(l2)))
    W.require(np.array_equal(l[0][2][names[0]], l2[0][2][names[0]], equal_nan=True), 'default maximum differs')
    try:
        l = list(g.get_chunks_of_tiles(layer=names[0]))
        W.require(len(g.resolutions) == 1, 'chunks without a resolution though there are {}'.format(g.resolutions))
        W.require(float(g.resolutions[0]) != res or len(l) == 1 and l[0][0] == l2[0][0] and l[0][1] == l2[0][1] and np.array_equal(l[0][2][names[0]], l2[0][2][names[0]], equal_nan=True), 'chunks without resolution differ')
    except ValueError:
        W.require(len(g.resolutions) > 1, 'chunks without a resolution were refused though there is one')


def one(part, spec, rows, cols, arr, alg, res, auto, kw, extra, reload_, dims, some):
    with env.scratch() as d:
        g, grd, allm = A.build(spec, rows, cols, arr, alg, res, auto, extra=extra, folder=(d + '/g') if reload_ else '', **kw)
        if reload_:
            g = load_grid(d + '/g')
        surfs = A.surfaces(grd, alg, res, auto, extra)
        before = W.state_digest(g)
        look(part, g, spec, surfs, dims, some)
        W.require(W.state_digest(g) == before, 'reading chunks changed the grid')


@task
def large(part, spec, rows, cols, start, step):
    """grids larger than the default maximum, of few large cells"""
    sp = W.Spec(**spec)
    T, res = sp.tile, sp.tile / 4

    def run(arr):
        g = sp.create()
        m = W.Model(sp)
        pts = []
        for i, s in enumerate(arr):
            if s == 'G':
                r, c = divmod(i, cols)
                for q in range(1 + i % 2):
                    pts.append((c * T + (0.3 + 0.5 * q) * T, r * T + (0.8 - 0.6 * q) * T, 10. + i + 0.5 * q, 1., 1.))
        a = sp.pts(pts)
        m.add('A', a)
        g.add_points(a, 'A', ['f'], 26917, 'waterline', progress_bar=False)
        g.grid('mean', res, progress_bar=False)
        seen = [chunks(part, g, sp, m.surface(res, 'mean'), res, None, list(sp.layers), nod, zp, True, False) for nod, zp in ((np.nan, False), (1000000.0, True))]
        part.outcome(seen)
    for i, arr in enumerate(A.states(rows, cols, '.G')):
        if 'G' not in arr or i % step != start:
            continue
        case = {'spec': spec, 'rows': rows, 'cols': cols, 'tiles': arr}
        part.state(repr(case))
        guarded(part, case, run, arr)
        part.executions += 1
        if full(part):
            return


def dimensions(spec, n):
    T = spec.tile
    s = T / 4
    return sorted({T / 4, T - s, T, T + s, 2 * T - s / 2, 2 * T, 2.5 * T, 3 * T, 3 * T + s, (n + 1) * T, 100 * T})


@task
def lattice(part, spec, rows, cols, start, step, symbols='.G', alg='mean', res=2.0, auto=None, kw=None, extra=(), reload_=False, some=True, arrs=None):
    sp = W.Spec(**spec)
    kw = dict(kw or {})
    kw['base'] = tuple(kw.get('base', (0, 0)))
    for i, arr in enumerate(arrs or A.states(rows, cols, symbols)):
        if 'G' not in arr or i % step != start:
            continue
        case = {'spec': spec, 'rows': rows, 'cols': cols, 'tiles': arr, 'alg': alg, 'res': res, 'auto': auto, 'kw': kw, 'extra': list(extra), 'reload': reload_}
        part.sample(case)
        part.state(repr(case))
        k = dict(kw)
        if k.get('half') == 'all':
            k['half'] = [j for j, s in enumerate(arr) if s == 'G']
        guarded(part, case, one, part, sp, rows, cols, arr, alg, res, auto, k, tuple(extra), reload_, dimensions(sp, max(rows, cols)), some)
        part.executions += 1
        if full(part):
            return


HEIGHT = 'VERTCRS["x",VDATUM["y"],CS[vertical,1],AXIS["gravity-related height (h)",up],LENGTHUNIT["metre",1]]'


def plan(run):
    t = run.thorough
    S = W.Spec
    cfg = [
        (S(), 3, 3, '.G', dict(res=2.0)),
        (S(off='utm', backend='zarr', dt='z'), 1, 5, '.G', dict(res=2.0, kw=dict(neg=True))),
        (S(off='neg'), 5, 1, '.G', dict(res=4.0, alg='shoalest')),
        (S(), 1, 7, '.G', dict(res=4.0)),
        (S(kind='vr'), 7, 1, '.G', dict(res=2.0)),
        (S(), 2, 4, '.G', dict(res=1.0, kw=dict(base=(-4, -8)))),
        (S(kind='vr'), 4, 2, '.G', dict(res=1.0)),
        (S(), 2, 2, '.UG', dict(res=1.0, extra=(2.0,))),
        (S(), 1, 4, '.UG', dict(res=2.0)),
        (S(kind='vr'), 3, 1, '.UG', dict(res=1.0, kw=dict(half='all'))),
        (S(kind='vr', off='utm'), 2, 2, '.UG', dict(res=None, auto='depth', kw=dict(deep=True, half='all'))),
        (S(kind='vr', backend='zarr'), 1, 3, '.UG', dict(res=None, auto='depth', kw=dict(deep=True), reload_=True)),
        (S(bs=True), 2, 2, '.UG', dict(res=1.0)),
        (S(), 2, 2, '.UG', dict(res=1.0, kw=dict(neg=True, vref=HEIGHT))),
        (S(tile=0.25, sub=0.125, off='south'), 2, 3, '.G', dict(res=1 / 32)),
        (S(kind='vr', tile=0.25, sub=0.125, off='utm'), 3, 2, '.G', dict(res=1 / 32)),
    ]
    if t:
        cfg += [(S(), 3, 4, '.G', dict(res=2.0, some=False)), (S(kind='vr', off='utm'), 3, 4, '.G', dict(res=2.0)), (S(), 2, 7, '.G', dict(res=4.0)), (S(kind='sr', backend='zarr'), 3, 2, '.UG', dict(res=2.0, reload_=True)),
                (S(kind='vr'), 2, 3, '.UG', dict(res=None, auto='depth', kw=dict(deep=True, half='all'), some=False)), (S(), 3, 3, '.UG', dict(res=4.0))]
    for sp, r, c, sym, k in cfg:
        n = len(sym) ** (r * c)
        step = min(n, 16 if n <= 1024 else 64)
        for s in range(step):
            run.add(lattice, spec=sp.json(), rows=r, cols=c, start=s, step=step, symbols=sym, **k)
    for kind in ('sr', 'vr'):
        for r, c in ((1, 5), (4, 1), (2, 3)) if not t else ((1, 6), (6, 1), (3, 3)):
            run.add(large, spec=S(kind=kind, tile=16384.0, sub=8192.0).json(), rows=r, cols=c, start=0, step=1)
    # more than ten tiles, rows and chunks
    full, less = 'G' * 12, ['G' * j + '.' + 'G' * (11 - j) for j in range(12)]
    for sp, r, c, k in ((S(off='utm'), 3, 4, dict(res=4.0)), (S(kind='vr', backend='zarr'), 4, 3, dict(res=2.0)), (S(off='neg'), 12, 1, dict(res=2.0)), (S(kind='vr'), 1, 12, dict(res=2.0))):
        for start in range(4 if not t else 1):
            run.add(lattice, spec=sp.json(), rows=r, cols=c, start=start, step=4 if not t else 1, symbols='.G', arrs=[full] + (less if t else [less[0], less[11], less[5]]), **k)
    run.bound(lattices=sorted({'{}x{}'.format(r, c) for _, r, c, _, _ in cfg}), maximum_dimensions=len(dimensions(S(), 4)))
