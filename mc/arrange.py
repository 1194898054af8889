"""Grids in which every tile of a small lattice is missing, ungridded or gridded."""
import itertools

import numpy as np

from . import world as W

# positions inside a tile of size 4, asymmetric, in several cells and subtiles; None of them on the diagonal
SPOTS = [(0.25, 2.75), (3.5, 0.5), (3.75, 0.625), (1.5, 3.25)]


def states(rows, cols, symbols='.UG'):
    """all assignments of a symbol to each tile, as strings row by row (row 0 is the southernmost)"""
    for s in itertools.product(symbols, repeat=rows * cols):
        yield ''.join(s)


def tile_rows(r, c, n, off=0.0, neg=False, base=(0, 0), deep=False):
    out = []
    for i in range(n):
        x, y = SPOTS[(i + r + 2 * c) % len(SPOTS)]
        z = 10.0 + 7.0 * r + 3.0 * c + 1.25 * i + off
        if deep:
            z = [3., 12., 35., 55.][(r + 2 * c + i) % 4] + 0.25 * r + 0.125 * c
        out.append((base[0] + 4 * c + x, base[1] + 4 * r + y, -z if neg else z, 0.5 + 0.125 * ((r * 3 + c + i) % 9), 1.0 + 0.25 * ((r + 4 * c + 2 * i) % 7)))
    return out


def scaled(rows, k):
    return [(x * k, y * k) + tuple(r) for x, y, *r in rows]


def build(spec, rows, cols, arrangement, alg='mean', res=1.0, auto=None, neg=False, vref='waterline', epsg=26917, folder='', base=(0, 0), deep=False, half=None, extra=()):
    """the grid, the model of its gridded points, the model of all points.

    G gridded, U points added after gridding, H gridded and then more points next to the first (only drawn on request),
    . no tile.  half lists tiles of which one subtile holds ungridded points only."""
    k = spec.tile / 4      # the lattice is drawn for tiles of size 4
    g = spec.create(folder)
    grd, allm = W.Model(spec), W.Model(spec)
    first, late = [], []
    for i, s in enumerate(arrangement):
        r, c = divmod(i, cols)
        if s in 'GH':
            first += tile_rows(r, c, 1 + (i + len(arrangement)) % 3, neg=neg, base=base, deep=deep)
        if s == 'U':
            late += tile_rows(r, c, 2, 0.5, neg=neg, base=base, deep=deep)
    for i in (half or ()):
        r, c = divmod(i, cols)
        # the lower left subtile of size 2 is never used by SPOTS
        late.append((base[0] + 4 * c + 0.5, base[1] + 4 * r + 0.5, (-1 if neg else 1) * 20.0, 1.0, 1.0))
    if first:
        a = spec.pts(scaled(first, k))
        g.add_points(a, 'first', ['file_a'], epsg, vref, min_time=1600000000, max_time=1600000100, progress_bar=False)
        grd.add('first', a)
        allm.add('first', a)
        kw = {} if auto is None else {'auto_resolution_mode': auto}
        g.grid(alg, res, progress_bar=False, **kw)
        for rs in extra:
            g.grid(alg, rs, progress_bar=False, **kw)
    if late:
        a = spec.pts(scaled(late, k))
        g.add_points(a, 'late', ['file_b'], epsg, vref, min_time=1600000050, max_time=1600000200, progress_bar=False)
        allm.add('late', a)
    return g, grd, allm


def surfaces(grd, alg, res, auto, extra=()):
    exp = W.expected(grd, alg, res, auto)
    for r in extra:
        exp[float(r)] = grd.surface(float(r), alg)
    return exp


def full_layer(grid, surf, res, layer, nodata, spec, zpos=False, positive_up=False):
    """the array the whole-grid layer should be"""
    intl = layer in ('density', 'hypothesis_count')
    fill = (0 if np.isnan(nodata) else int(nodata)) if intl else np.float32(nodata)
    h, w = int(round(grid.height / res)), int(round(grid.width / res))
    a = np.full((h, w), fill, dtype=np.float64)
    bx, by = int(round(grid.min_x / res)), int(round(grid.min_y / res))
    flip = layer == 'depth' and (zpos != positive_up)
    for (ix, iy), st in surf.items():
        if layer not in st:
            continue
        v = st[layer]
        a[iy - by, ix - bx] = np.nan if v is None else (-v if flip else v)
    return a
