"""C10 assembled layers put every cell at its true place"""
import itertools

import numpy as np

import bathygrid.bgrid

from .. import arrange as A
from .. import env
from .. import world as W
from ..core import task, guarded, full, Violation
from bathygrid.bgrid import BathyGrid
from bathygrid.convenience import load_grid

LEVEL = 'exploration'
RULE = ('every arrangement of missing, ungridded and gridded tiles on the lattices in the bounds; for each: every layer and several lists of layers, NaN and two numeric no-data values, '
        'both sign options, whole grid, single tiles, trimmed and as x, y, z, compared cell by cell with arrays built from the points')


def eq(exp, got, what, tol=W.TOL, zero=None):
    W.require(got is not None, '{}: nothing returned'.format(what))
    got = W.npa(got)
    W.require(exp.shape == got.shape, '{}: shape is {}, should be {}'.format(what, got.shape, exp.shape))
    got = got.astype(np.float64)
    if zero is not None:
        # an integer layer is zero where a gridded tile has no points, and no data where there is no gridded tile
        got = np.where((got == 0) & (exp == zero), exp, got)
    bad = ~((np.abs(exp - got) <= tol + 1e-6 * np.abs(exp)) | (np.isnan(exp) & np.isnan(got)))
    if bad.any():
        r, c = [int(v) for v in np.argwhere(bad)[0]]
        raise Violation('{}: row {} column {} should be {} and is {} ({} cells differ)'.format(what, r, c, exp[r, c], got[r, c], int(bad.sum())))


def zero_of(lyr, nod):
    return None if lyr != 'density' or np.isnan(nod) else float(int(nod))


def look(part, g, grd, spec, surfs, deep=True):
    """all layer access of one grid against the expected surfaces"""
    pos = 'height' in (g.vertical_reference or '')
    T = spec.tile
    names = list(spec.layers)
    for res, surf in surfs.items():
        for nod in (np.nan, -9999.0, -9999.1, 1000000.0):
            for zp in (False, True):
                for lyr in names:
                    a = g.get_layers_by_name(lyr, res, nodatavalue=nod, z_positive_up=zp)
                    W.require(isinstance(a, list) and len(a) == 1, 'get_layers_by_name of one layer returned {}'.format(type(a)))
                    eq(layer_exp(g, surf, res, lyr, nod, spec, zp, pos), a[0], '{} at {} nodata {} positive up {}'.format(lyr, res, nod, zp), zero=zero_of(lyr, nod))
                    part.checks += 1
                many = names if not zp else names[::-1]
                a = g.get_layers_by_name(many, res, nodatavalue=nod, z_positive_up=zp)
                W.require(len(a) == len(many), '{} layers for {}'.format(len(a), many))
                for lyr, d in zip(many, a):
                    eq(layer_exp(g, surf, res, lyr, nod, spec, zp, pos), d, '{} of {} at {} nodata {} positive up {}'.format(lyr, many, res, nod, zp), zero=zero_of(lyr, nod))
                    part.checks += 1
            trimmed(part, g, spec, surf, res, nod, pos, names)
        if [float(r) for r in g.resolutions] == [res]:
            eq(layer_exp(g, surf, res, names[0], np.nan, spec, False, pos), g.get_layers_by_name(names[0])[0], '{} without resolution'.format(names[0]))
        tiles(part, g, spec, surf, res, pos, names)
        if [float(r) for r in g.resolutions] == [res]:
            a, b = g.return_surf_xyz(names[0]), g.return_surf_xyz(names[0], res)
            W.require(all(np.array_equal(W.npa(u), W.npa(v), equal_nan=True) for u, v in zip(a, b)), 'return_surf_xyz without resolution differs')
            a, b = list(g.get_tiles_by_resolution(None, names)), list(g.get_tiles_by_resolution(res, names))
            W.require(len(a) == len(b) and all(repr(u) == repr(v) for u, v in zip(a, b)), 'get_tiles_by_resolution without resolution differs')
    mine = sorted(float(r) for r in g.resolutions)
    if mine == sorted(surfs):
        for lyr in names[:2]:
            for res in [None] + mine:
                if res is None or len(mine) > 1:
                    plotted(part, g, surfs, res, lyr)
    if len(g.resolutions) > 1:
        for what, f in (('get_layers_by_name', lambda: g.get_layers_by_name(names[0])), ('return_surf_xyz', lambda: g.return_surf_xyz(names[0])),
                        ('get_tiles_by_resolution', lambda: list(g.get_tiles_by_resolution(None, names[0])))):
            try:
                f()
            except ValueError:
                continue
            raise Violation('{} answered without a resolution though there are {}'.format(what, sorted(surfs)))


class Paper:
    """keeps what is drawn"""

    def __init__(self):
        self.drawn = []

    def pcolormesh(self, x, y, d, *a, **k):
        self.drawn.append((np.array(x), np.array(y), np.ma.filled(np.ma.array(d, dtype=np.float64), np.nan)))

    def __getattr__(self, name):
        return lambda *a, **k: None


def plotted(part, g, surfs, res, lyr):
    """the plot of a layer draws every cell at its place"""
    paper = Paper()
    keep = bathygrid.bgrid.plt
    bathygrid.bgrid.plt = paper
    try:
        g.plot(lyr, res)
    finally:
        bathygrid.bgrid.plt = keep
    exp = {}
    for r in [res] if res else surfs:
        for k, st in surfs[r].items():
            if lyr in st:
                exp[(k[0] * r, k[1] * r, r)] = -st[lyr] if lyr == 'depth' and 'height' in (g.vertical_reference or '') and st[lyr] is not None else st[lyr]
    got = {}
    for x, y, d in paper.drawn:
        W.require(x.shape == y.shape == tuple(n + 1 for n in d.shape), 'plot of {}: {} corners for {} cells'.format(lyr, x.shape, d.shape))
        for i, j in np.argwhere(~np.isnan(d)):
            if lyr == 'density' and d[i, j] == 0:
                continue
            k = (float(x[i, j]), float(y[i, j]), float(x[i + 1, j + 1] - x[i, j]))
            W.require(abs(y[i + 1, j + 1] - y[i, j] - k[2]) < 1e-9 and k not in got, 'plot of {}: cell {} is not square or drawn twice'.format(lyr, k))
            got[k] = float(d[i, j])
    W.require(set(got) == set(exp), 'plot of {} at {}: cells {} are missing, cells {} should be empty'.format(lyr, res, sorted(set(exp) - set(got))[:4], sorted(set(got) - set(exp))[:4]))
    for k, v in exp.items():
        W.require(v is None or abs(got[k] - v) <= W.TOL + 1e-6 * abs(v), 'plot of {} at {}: cell {} is drawn as {}, should be {}'.format(lyr, res, k, got[k], v))
    part.checks += 1


def layer_exp(g, surf, res, lyr, nod, spec, zp, pos):
    return A.full_layer(g, surf, res, lyr, nod, spec, zp, pos)


def trimmed(part, g, spec, surf, res, nod, pos, names):
    bx, by = int(round(g.min_x / res)), int(round(g.min_y / res))
    cells = sorted(surf)
    c0, c1 = min(k[0] for k in cells) - bx, max(k[0] for k in cells) - bx + 1
    r0, r1 = min(k[1] for k in cells) - by, max(k[1] for k in cells) - by + 1
    sets = [[n] for n in names] + [names[1:] + names[:1]]
    for zp in (False, True):
        for ls in sets:
            data, mins, maxs = g.get_layers_trimmed(ls if len(ls) > 1 else ls[0], res, nodatavalue=nod, z_positive_up=zp)
            W.require([int(v) for v in mins] == [r0, c0] and [int(v) for v in maxs] == [r1, c1],
                      'trimmed {} at {} nodata {}: from {} to {}, should be {} to {}'.format(ls, res, nod, mins, maxs, [r0, c0], [r1, c1]))
            for lyr, d in zip(ls, data):
                eq(layer_exp(g, surf, res, lyr, nod, spec, zp, pos)[r0:r1, c0:c1], d, 'trimmed {} of {} at {}'.format(lyr, ls, res), zero=zero_of(lyr, nod))
                part.checks += 1
    for cb in (True, False):
        for lyr in names:
            x, y, d, mins, maxs = g.return_surf_xyz(lyr, res, cell_boundaries=cb, nodatavalue=nod)
            W.require([int(v) for v in mins] == [r0, c0] and [int(v) for v in maxs] == [r1, c1], 'return_surf_xyz {} at {}: from {} to {}'.format(lyr, res, mins, maxs))
            h = 0.0 if cb else 0.5
            ex = [g.min_x + (i + h) * res for i in range(c0, c1 + (1 if cb else 0))]
            ey = [g.min_y + (i + h) * res for i in range(r0, r1 + (1 if cb else 0))]
            W.require(np.allclose(x, ex, rtol=0, atol=1e-9) if len(x) == len(ex) else False, 'return_surf_xyz {} at {} boundaries {}: x is {}, should be {}'.format(lyr, res, cb, x, ex))
            W.require(np.allclose(y, ey, rtol=0, atol=1e-9) if len(y) == len(ey) else False, 'return_surf_xyz {} at {} boundaries {}: y is {}, should be {}'.format(lyr, res, cb, y, ey))
            eq(layer_exp(g, surf, res, lyr, nod, spec, False, pos)[r0:r1, c0:c1], d[0], 'return_surf_xyz {} at {}'.format(lyr, res), zero=zero_of(lyr, nod))
            part.checks += 1


def tiles(part, g, spec, surf, res, pos, names):
    """every tile on its own"""
    n = int(round(spec.tile / res))
    seen = set()
    for nod, zp in ((np.nan, False), (np.nan, True), (-9999.0, False), (-9999.0, True)):
        whole = {l: layer_exp(g, surf, res, l, nod, spec, zp, pos) for l in names}
        listed = list(g.get_tiles_by_resolution(res, names, nodatavalue=nod, z_positive_up=zp))
        W.require(len(listed) == sum(1 for t in g.tiles.flat if t is not None), '{} tiles listed'.format(len(listed)))
        it = iter(listed)
        for r in range(g.tiles.shape[0]):
            for c in range(g.tiles.shape[1]):
                t = g.tiles[r, c]
                if t is None:
                    continue
                got_t, data, geo, drow, dcol, cnt = g.get_tile_data(r, c, res, names, nodatavalue=nod, z_positive_up=zp)
                lg, lrow, lcol, lcnt, ldata = next(it)
                if np.isnan(nod):
                    for l in names[:2]:
                        one = g.get_tile_data(r, c, res, l, nodatavalue=nod, z_positive_up=zp)
                        W.require(list(one[1]) == [x for x in [l] if x in data] and all(np.array_equal(W.npa(one[1][x]), W.npa(data[x]), equal_nan=True) for x in one[1]) and one[2:] == (geo, drow, dcol, cnt),
                                  'get_tile_data of {} alone differs'.format(l))
                W.require(got_t is t, 'get_tile_data({}, {}) returned another tile'.format(r, c))
                W.require((drow, dcol, cnt) == (r * n, c * n, n), 'tile {} {} is at {} with {} cells'.format(r, c, (drow, dcol), cnt))
                W.require((lrow, lcol, lcnt) == (drow, dcol, cnt) and lg == geo and sorted(ldata) == sorted(data), 'get_tiles_by_resolution and get_tile_data differ for {} {}'.format(r, c))
                cells = {k for k in surf if W.fdiv(k[0], n) == W.fdiv(t.min_x, spec.tile) and W.fdiv(k[1], n) == W.fdiv(t.min_y, spec.tile)}
                if cells:
                    e = [g.min_x + c * spec.tile, res, 0, g.min_y + (r + 1) * spec.tile, 0, -res]
                    W.require(geo is not None and [float(v) for v in geo] == e, 'tile {} {}: georeference {}, should be {}'.format(r, c, geo, e))
                for l in names:
                    part.checks += 1
                    if not cells:
                        if l in data and not (l == 'density' and (W.npa(data[l]) == (0 if np.isnan(nod) else int(nod))).all()):
                            raise Violation('tile {} {} holds nothing at {} and returned {}'.format(r, c, res, data[l]))
                        continue
                    W.require(l in data, 'tile {} {} returned no {}'.format(r, c, l))
                    for d in (data[l], ldata[l]):
                        eq(whole[l][r * n:(r + 1) * n, c * n:(c + 1) * n], d, 'tile {} {}: {} at {} nodata {} positive up {}'.format(r, c, l, res, nod, zp), zero=zero_of(l, nod))
                seen.add((r, c))


def one(part, spec, rows, cols, arr, alg, res, auto, neg, vref, base, deep, half, extra, reload_):
    if reload_:
        with env.scratch() as d:
            g, grd, allm = A.build(spec, rows, cols, arr, alg, res, auto, neg=neg, vref=vref, base=base, deep=deep, half=half, extra=extra, folder=d + '/g')
            g = load_grid(d + '/g')
            look(part, g, grd, spec, A.surfaces(grd, alg, res, auto, extra))
        return
    g, grd, allm = A.build(spec, rows, cols, arr, alg, res, auto, neg=neg, vref=vref, base=base, deep=deep, half=half, extra=extra)
    look(part, g, grd, spec, A.surfaces(grd, alg, res, auto, extra))
    part.outcome((arr, [W.npa(v).tolist() for v in g.get_layers_by_name(list(spec.layers), g.resolutions[0])]))


@task
def arrangements(part, spec, rows, cols, start, step, alg='mean', res=1.0, auto=None, neg=False, vref='waterline', base=(0, 0), deep=False, half=None, extra=(), reload_=False):
    sp = W.Spec(**spec)
    for i, arr in enumerate(A.states(rows, cols)):
        if 'G' not in arr or i % step != start:
            continue
        case = {'spec': spec, 'rows': rows, 'cols': cols, 'tiles': arr, 'alg': alg, 'res': res, 'auto': auto, 'negative': neg, 'vref': vref, 'base': list(base), 'deep': deep,
                'half': half, 'extra': list(extra), 'reload': reload_}
        part.sample(case)
        part.state(repr(case))
        hf = [j for j, s in enumerate(arr) if s == 'G'] if half == 'all' else [arr.index('G')] if half == 'first' else None
        guarded(part, case, one, part, sp, rows, cols, arr, alg, res, auto, neg, vref, tuple(base), deep, hf, tuple(extra), reload_)
        part.executions += 1
        if full(part):
            return


HEIGHT = 'VERTCRS["x",VDATUM["y"],CS[vertical,1],AXIS["gravity-related height (h)",up],LENGTHUNIT["metre",1]]'


def plan(run):
    t = run.thorough
    k = 8
    S = W.Spec
    cfg = [
        (S(), 2, 2, dict(res=1.0)),
        (S(), 2, 2, dict(res=0.5, extra=(2.0,), base=(-4, -8))),
        (S(backend='zarr', off='utm'), 2, 2, dict(res=2.0, alg='shoalest', neg=True)),
        (S(off='neg'), 2, 3, dict(res=2.0)),
        (S(dt='z'), 3, 2, dict(res=4.0, base=(-4, 0))),
        (S(kind='vr'), 2, 2, dict(res=1.0, half='all')),
        (S(kind='vr', off='utm'), 2, 2, dict(res=None, auto='depth', deep=True)),
        (S(kind='vr', backend='zarr', dt='v'), 2, 2, dict(res=None, auto='depth', deep=True, base=(-4, -4), half='first')),
        (S(kind='vr'), 2, 2, dict(res=2.0, extra=(0.5,), alg='shoalest')),
        (S(), 2, 2, dict(res=1.0, neg=True, vref=HEIGHT)),
        (S(kind='vr'), 2, 2, dict(res=1.0, neg=True, vref=HEIGHT)),
        (S(kind='sr', bs=True), 2, 2, dict(res=1.0, neg=True)),
        (S(kind='vr', bs=True), 2, 2, dict(res=1.0)),
        (S(tile=0.25, sub=0.125, off='south'), 2, 2, dict(res=1 / 32)),
        (S(kind='vr', backend='zarr', tile=0.25, sub=0.125, off='utm'), 2, 2, dict(res=1 / 16, extra=(1 / 64,), half='first')),
    ]
    if t:
        cfg += [(S(), 2, 3, dict(res=0.5, extra=(1.0, 4.0))), (S(kind='vr'), 2, 3, dict(res=1.0, half='first')), (S(kind='vr'), 3, 2, dict(res=None, auto='depth', deep=True, half='all')),
                (S(kind='sr', backend='zarr'), 3, 2, dict(res=1.0, neg=True, vref=HEIGHT, alg='shoalest')), (S(), 1, 6, dict(res=1.0)), (S(kind='vr', dt='h'), 6, 1, dict(res=1.0)),
                (S(kind='sr'), 2, 4, dict(res=2.0)), (S(kind='sr'), 3, 3, dict(res=2.0, base=(-8, -4)))]
        k = 32
    for sp, r, c, kw in cfg:
        for s in range(k if r * c >= 6 else 4):
            run.add(arrangements, spec=sp.json(), rows=r, cols=c, start=s, step=k if r * c >= 6 else 4, **kw)
    for backend in ('numpy', 'zarr'):
        for kind in ('sr', 'vr'):
            for s in range(8):
                run.add(arrangements, spec=S(kind=kind, backend=backend, off='utm').json(), rows=2, cols=2 if not t else 3, start=s, step=8 if not t else 8,
                        res=None if kind == 'vr' else 1.0, auto='depth' if kind == 'vr' else None, deep=kind == 'vr', reload_=True)
    run.bound(lattices=sorted({'{}x{}'.format(r, c) for _, r, c, _ in cfg}), no_data_values=["nan", -9999, -9999.1, 1000000])
