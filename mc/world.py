"""Small worlds, a boring reference model, and observations of a grid through its public face.

Nothing in here asks bathygrid how something should be: expected values are computed from the points alone.
"""
import copy
import hashlib
import itertools
import json
import math
import os

import numpy as np

from . import env
from .core import Violation
from bathygrid.bgrid import BathyGrid
from bathygrid.convenience import create_grid, load_grid

DT = [('x', np.float64), ('y', np.float64), ('z', np.float32), ('tvu', np.float32), ('thu', np.float32)]
DT64 = [('x', np.float64), ('y', np.float64), ('z', np.float64), ('tvu', np.float64), ('thu', np.float64)]
DTZ = [('x', np.float64), ('y', np.float64), ('z', np.float32)]
DTV = [('x', np.float64), ('y', np.float64), ('z', np.float32), ('tvu', np.float32)]
DTH = [('x', np.float64), ('y', np.float64), ('z', np.float32), ('thu', np.float32)]
DTYPES = {'f32': DT, 'f64': DT64, 'z': DTZ, 'v': DTV, 'h': DTH}

OFFSETS = {'zero': (0.0, 0.0), 'utm': (500000.0, 4500000.0), 'neg': (-8.0, -12.0), 'south': (4500000.0, -900000.0)}

TOL = 2e-3   # surfaces are rounded to a millimetre and stored as float32


def fdiv(a, b):
    return int(math.floor(a / b))


class Spec:
    """which kind of grid"""

    def __init__(self, kind='sr', backend='numpy', tile=4.0, sub=2.0, bs=False, off='zero', dt='f32'):
        self.kind, self.backend, self.tile, self.sub, self.bs, self.off, self.dt = kind, backend, tile, sub, bs, off, dt

    def json(self):
        return dict(kind=self.kind, backend=self.backend, tile=self.tile, sub=self.sub, bs=self.bs, off=self.off, dt=self.dt)

    @property
    def layers(self):
        names = ['intensity' if self.bs else 'depth', 'density']
        fields = [d[0] for d in DTYPES[self.dt]]
        if 'tvu' in fields:
            names.append('vertical_uncertainty')
        if 'thu' in fields:
            names.append('horizontal_uncertainty')
        return names

    @property
    def depth(self):
        return 'intensity' if self.bs else 'depth'

    def create(self, folder=''):
        return create_grid(folder_path=folder, grid_type='single_resolution' if self.kind == 'sr' else 'variable_resolution_tile',
                           grid_backend=self.backend, tile_size=self.tile, subtile_size=self.sub, is_backscatter=self.bs)

    def pts(self, rows):
        """structured array from relative rows (x, y, z, tvu, thu)"""
        ox, oy = OFFSETS[self.off]
        dt = DTYPES[self.dt]
        a = np.zeros(len(rows), dtype=dt)
        for i, r in enumerate(rows):
            a['x'][i], a['y'][i], a['z'][i] = r[0] + ox, r[1] + oy, r[2]
            if 'tvu' in a.dtype.names:
                a['tvu'][i] = r[3]
            if 'thu' in a.dtype.names:
                a['thu'][i] = r[4]
        return a


def rows(*xyz, seed=0):
    """attach distinct uncertainties to (x, y, z) rows, one of them zero now and then"""
    return tuple((x, y, z, 0.125 * ((i * 5 + seed * 3) % 16), 0.25 * ((1 + i * 7 + seed * 5) % 16)) for i, (x, y, z) in enumerate(xyz))


# tile 4, subtile 2.  A B C D share cells of tile (0,0) with different point counts; each also lies elsewhere, on edges
# and corners of cells, subtiles and tiles.
OVERLAP = {
    'A': rows((0.5, 0.5, 10.), (3.875, 1.0, 12.5), (4.0, 0.0, 17.), (1.25, 2.0, 11.), seed=0),
    'B': rows((0.625, 0.75, 21.), (2.0, 2.0, 25.), (0.25, 4.0, 29.), (5.5, 1.5, -3.5), (0.875, 0.875, 38.5), seed=1),
    'C': rows((0.75, 0.5, 40.), (-0.125, -3.5, 0.), (2.5, 0.125, 46.5), seed=2),
    'D': rows((0.5, 0.5, 33.), (9.5, 1.5, 35.), seed=3),
}
# same tiles for all, so that additions never grow the grid
NOGROW = {
    'A': rows((0.5, 0.5, 10.), (7.5, 7.5, 12.5), (1.5, 1.5, 14.5), seed=0),
    'B': rows((0.625, 0.75, 21.), (7.25, 7.125, 25.), (5.0, 0.5, 33.), seed=1),
    'C': rows((0.75, 0.5, 40.), (4.0, 4.0, 44.), seed=2),
    'D': rows((7.5, 7.75, 55.), seed=3),
}
# shallow and deep subtiles, so that automatic resolutions differ between subtiles and change with the data
BANDS = {
    'A': rows((0.5, 0.5, 8.), (2.5, 0.5, 15.), (0.5, 2.5, 30.), seed=0),
    'B': rows((0.625, 0.75, 30.), (2.5, 2.5, 50.), (4.5, 0.5, 9.), seed=1),
    'C': rows((2.75, 0.625, 45.), (0.75, 2.75, 0.), (-0.5, 0.5, -2.5), seed=2),
}
# few points over many tiles on both sides of the origin; rows and columns of the tiles differ, their names are alike
WIDE = {
    'A': rows((44.5, 4.5, 10.), (4.5, 44.5, 12.5), (-3.5, 4.5, 14.5), (0.5, 0.5, 16.), seed=0),
    'B': rows((44.625, 44.5, 21.), (4.5, 4.5, 25.), (-43.5, -3.5, 33.), (0.625, 0.75, 29.), (4.75, 44.625, 24.), seed=1),
    'C': rows((4.5, -3.5, 40.), (44.75, 4.625, 44.), (-3.5, -43.5, 46.), seed=2),
}
# far smaller tiles than coordinates: places that single precision does not tell apart
FINE = {c: tuple((x / 64, y / 64) + tuple(r) for x, y, *r in v) for c, v in OVERLAP.items()}
# names that begin, end or read alike, differ in case only, or hold what a file name may not
NAMES = {'l': OVERLAP['A'], 'l1': OVERLAP['B'], 'l10': OVERLAP['C'], 'L': OVERLAP['D'], '0l': OVERLAP['D'], '10 l/\u00fc_1.all': OVERLAP['B'],
         'l__0': OVERLAP['B'], 'l__1': OVERLAP['C'], '__l': OVERLAP['D'], 'l_': OVERLAP['D']}
# a dozen containers in the same two tiles
MANY = {'c%d' % i: rows((0.25 + 0.25 * (i % 8), 0.5, 10. + i), (4.5, 0.25 * (i % 5), 20. + i), seed=i) for i in range(12)}
# more points than sixteen bits can count, beside few
CROWD = {'A': OVERLAP['A'] + rows((5.25, 1.5, 8.), seed=7) * 66000 + rows((5.5, 1.5, 9.), seed=8), 'B': OVERLAP['B'], 'C': OVERLAP['C']}
WORLDS = {'names': NAMES, 'many': MANY, 'crowd': CROWD, 'fine': FINE, 'wide': WIDE, 'overlap': OVERLAP, 'nogrow': NOGROW, 'bands': BANDS}


class Model:
    """what the grid is supposed to hold: containers and their points, nothing else"""

    def __init__(self, spec):
        self.spec = spec
        self.held = {}      # container -> structured array

    def clone(self):
        m = Model(self.spec)
        m.held = dict(self.held)
        return m

    def add(self, name, arr):
        assert name not in self.held
        self.held[name] = arr

    def remove(self, name):
        self.held.pop(name, None)

    def all(self):
        arrs = list(self.held.values())
        return np.concatenate(arrs) if arrs else None

    def mean_depth(self):
        a = self.all()
        return 0.0 if a is None else float(np.asarray(a['z'], dtype=np.float64).mean())

    def by_square(self, size, names=None, ox=0.0, oy=0.0):
        """(ix, iy) -> list of (container, point tuple)"""
        out = {}
        for c, arr in self.held.items():
            if names is not None and c not in names:
                continue
            for p in arr:
                k = (fdiv(float(p['x']) - ox, size), fdiv(float(p['y']) - oy, size))
                out.setdefault(k, []).append((c, p))
        return out

    def surface(self, res, alg, names=None, ox=0.0, oy=0.0):
        """(ix, iy) -> {layer: value}; a value of None is undetermined (several shoalest points)"""
        out = {}
        for k, lst in self.by_square(res, names, ox, oy).items():
            out[k] = cell_stat([p for _, p in lst], alg, self.spec)
        return out


def cell_stat(pts, alg, spec):
    z = [float(p['z']) for p in pts]
    names = pts[0].dtype.names
    st = {'density': len(pts)}
    if alg == 'mean':
        st[spec.depth] = math.fsum(z) / len(z)
        if 'tvu' in names:
            st['vertical_uncertainty'] = math.fsum(float(p['tvu']) for p in pts) / len(pts)
        if 'thu' in names:
            st['horizontal_uncertainty'] = math.fsum(float(p['thu']) for p in pts) / len(pts)
    else:
        m = min(z)
        st[spec.depth] = m
        at = [p for p in pts if float(p['z']) == m]
        for f, lyr in (('tvu', 'vertical_uncertainty'), ('thu', 'horizontal_uncertainty')):
            if f in names:
                vals = {float(p[f]) for p in at}
                st[lyr] = vals.pop() if len(vals) == 1 else None
    return st


# ---------------------------------------------------------------------------------------------- observations

def npa(a):
    if a is None or isinstance(a, np.ndarray):
        return a
    if hasattr(a, 'compute'):
        return a.compute()
    return np.asarray(a)


def leaves(grid):
    """(row, col, subrow, subcol, tile) of every leaf tile; sub* are None for single resolution"""
    if grid.tiles is None:
        return
    for r in range(grid.tiles.shape[0]):
        for c in range(grid.tiles.shape[1]):
            t = grid.tiles[r, c]
            if t is None:
                continue
            if isinstance(t, BathyGrid):
                if t.tiles is None:
                    continue
                for sr in range(t.tiles.shape[0]):
                    for sc in range(t.tiles.shape[1]):
                        st = t.tiles[sr, sc]
                        if st is not None:
                            yield r, c, sr, sc, st
            else:
                yield r, c, None, None, t


def ptuple(p):
    return tuple(float(v) for v in p.tolist())


def obs_points(grid):
    """container -> sorted list of point tuples, from the ranges the tiles report"""
    out = {}
    for *_, t in leaves(grid):
        data = npa(t.data)
        for c, (s, e) in t.container.items():
            out.setdefault(c, []).extend(ptuple(p) for p in data[s:e])
    for c in out:
        out[c].sort()
    return out


def exp_points(model):
    return {c: sorted(ptuple(p) for p in a) for c, a in model.held.items()}


def obs_surface(grid, res, layers, ox=0.0, oy=0.0, z_positive_up=None):
    """(ix, iy) -> {layer: value} for all cells in which any layer holds a value, from the assembled layers"""
    kw = {} if z_positive_up is None else {'z_positive_up': z_positive_up}
    data = grid.get_layers_by_name(list(layers), res, **kw)
    return cells_of(grid, data, res, layers, ox, oy)


def cells_of(grid, data, res, layers, ox=0.0, oy=0.0):
    out = {}
    if data is None:
        return out
    if len(data) != len(layers):
        raise Violation('asked for {} layers, got {}'.format(len(layers), len(data)))
    bx = (grid.min_x - ox) / res
    by = (grid.min_y - oy) / res
    if abs(bx - round(bx)) > 1e-9 or abs(by - round(by)) > 1e-9:
        raise Violation('grid origin {} {} is not on a cell edge of resolution {}'.format(grid.min_x, grid.min_y, res))
    bx, by = int(round(bx)), int(round(by))
    for lyr, d in zip(layers, data):
        d = npa(d)
        if lyr in ('density', 'hypothesis_count'):
            idx = np.argwhere(d != 0)
        else:
            idx = np.argwhere(~np.isnan(d))
        for iy, ix in idx:
            out.setdefault((int(bx + ix), int(by + iy)), {})[lyr] = float(d[iy, ix])
    return out


def diff_surface(exp, got, tol=TOL):
    """None or a message"""
    for k in sorted(set(exp) | set(got)):
        if k not in got:
            return 'cell {} should hold {} and is empty'.format(k, exp[k])
        if k not in exp:
            return 'cell {} should be empty and holds {}'.format(k, got[k])
        e, g = exp[k], got[k]
        for lyr in sorted(set(e) | set(g)):
            if lyr in e and e[lyr] is None:
                continue
            if lyr not in g:
                return 'cell {}: layer {} should be {} and is empty'.format(k, lyr, e[lyr])
            if lyr not in e:
                return 'cell {}: layer {} should be empty and is {}'.format(k, lyr, g[lyr])
            if lyr == 'density':
                if e[lyr] != g[lyr]:
                    return 'cell {}: density should be {} and is {}'.format(k, e[lyr], g[lyr])
            elif not abs(e[lyr] - g[lyr]) <= tol + 1e-6 * abs(e[lyr]):
                return 'cell {}: {} should be {} and is {}'.format(k, lyr, e[lyr], g[lyr])
    return None


def require(cond, msg, case=None):
    if not cond:
        raise Violation(msg, case)


def same_surface(exp, got, what, case=None, tol=TOL):
    m = diff_surface(exp, got, tol)
    if m:
        raise Violation('{}: {}'.format(what, m), case)


def check_placement(grid, model, ox=0.0, oy=0.0):
    """every point once, in the right tile, attributed; no empty tiles"""
    spec = model.spec
    leaf = spec.tile if spec.kind == 'sr' else spec.sub
    exp = {}
    for c, arr in model.held.items():
        for p in arr:
            k = (fdiv(float(p['x']) - ox, leaf), fdiv(float(p['y']) - oy, leaf))
            exp.setdefault(k, {}).setdefault(c, []).append(ptuple(p))
    got = {}
    for r, c, sr, sc, t in leaves(grid):
        n = t.points_count
        require(n > 0, 'tile at {} {} holds no points and is still in the grid'.format(t.min_x, t.min_y))
        data = npa(t.data)
        require(data.size == n, 'tile reports {} points and holds {}'.format(n, data.size))
        require(abs((t.max_x - t.min_x) - leaf) < 1e-9 and abs((t.max_y - t.min_y) - leaf) < 1e-9, 'tile has extents {} {} {} {}'.format(t.min_x, t.min_y, t.max_x, t.max_y))
        if spec.kind == 'sr':
            ex, ey = grid.min_x + c * spec.tile, grid.min_y + r * spec.tile
        else:
            ex, ey = grid.min_x + c * spec.tile + sc * spec.sub, grid.min_y + r * spec.tile + sr * spec.sub
        require(t.min_x == ex and t.min_y == ey, 'tile with origin {} {} sits where {} {} belongs'.format(t.min_x, t.min_y, ex, ey))
        k = (fdiv(t.min_x - ox, leaf), fdiv(t.min_y - oy, leaf))
        require(k not in got, 'two tiles at {}'.format(k))
        rng = sorted((s, e, name) for name, (s, e) in t.container.items())
        pos = 0
        for s, e, name in rng:
            require(s == pos and e > s, 'tile at {}: containers {} do not partition {} points'.format(k, dict(t.container), n))
            pos = e
        require(pos == n, 'tile at {}: containers {} do not cover {} points'.format(k, dict(t.container), n))
        got[k] = {name: [ptuple(p) for p in data[s:e]] for s, e, name in rng}
        require(set(data.dtype.names) == {d[0] for d in DTYPES[spec.dt]}, 'fields are {}'.format(data.dtype.names))
    for k in sorted(set(exp) | set(got)):
        require(k in got, 'tile {} is missing, should hold {}'.format(k, exp.get(k)))
        require(k in exp, 'tile {} should not exist, holds {}'.format(k, got.get(k)))
        for name in sorted(set(exp[k]) | set(got[k])):
            e, g = sorted(exp[k].get(name, [])), sorted(got[k].get(name, []))
            require(e == g, 'tile {}: points of {} should be {} and are {}'.format(k, name, e, g))
    total = sum(len(a) for a in model.held.values())
    require(grid.points_count == total, 'points_count is {}, should be {}'.format(grid.points_count, total))
    require(list(sorted(grid.container)) == sorted(model.held), 'containers are {}, should be {}'.format(sorted(grid.container), sorted(model.held)))
    require(grid.is_empty == (total == 0), 'is_empty is {} with {} points'.format(grid.is_empty, total))
    if grid.tiles is not None:
        for t in grid.tiles.flat:
            if isinstance(t, BathyGrid):
                require(not t.is_empty and t.points_count > 0, 'subgrid {} holds no points and is still in the grid'.format(t.name))


# ---------------------------------------------------------------------------------------------- canonical dump

SKIP = {'client', 'container_timestamp', 'output_folder', 'storage_class', 'version'}


def _feed(h, x, depth=0):
    if x is None or isinstance(x, (bool, int, str)):
        h.update(repr(x).encode())
    elif isinstance(x, (float, np.floating, np.integer, np.bool_)):
        h.update(repr(float(x)).encode())
    elif isinstance(x, np.ndarray):
        if x.dtype == object:
            h.update(repr(x.shape).encode())
            for v in x.flat:
                _feed(h, v, depth + 1)
                h.update(b';')
        else:
            h.update(repr((x.shape, str(x.dtype))).encode())
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        h.update(b'{')
        for k, v in x.items():
            _feed(h, k, depth + 1)
            h.update(b':')
            _feed(h, v, depth + 1)
            h.update(b',')
        h.update(b'}')
    elif isinstance(x, (list, tuple)):
        h.update(b'[')
        for v in x:
            _feed(h, v, depth + 1)
            h.update(b',')
        h.update(b']')
    elif hasattr(x, 'compute'):
        _feed(h, x.compute(), depth + 1)
    elif isinstance(x, type):
        h.update(x.__name__.encode())
    elif hasattr(x, '__dict__'):
        h.update(type(x).__name__.encode())
        d = vars(x)
        for k in sorted(d):
            if k not in SKIP:
                h.update(k.encode())
                h.update(b'=')
                _feed(h, d[k], depth + 1)
                h.update(b',')
    elif isinstance(x, bytes):
        h.update(x)
    else:
        h.update(repr(x).encode())


def digest_of(*x):
    h = hashlib.blake2b(digest_size=12)
    _feed(h, x)
    return h.digest()


def state_digest(grid):
    """everything the live object holds that can influence what it does later"""
    h = hashlib.blake2b(digest_size=12)
    _feed(h, grid)
    return h.digest()


def _mask(x):
    if isinstance(x, dict):
        return {k: (_mask(v) if 'timestamp' not in k else sorted(v) if isinstance(v, dict) else None) for k, v in x.items()}
    return x


def tree_digest(folder, own=False):
    """every file below a folder, by relative name and content (time stamps inside metadata are masked, with own the path of the folder too)"""
    h = hashlib.blake2b(digest_size=12)
    for root, dirs, files in os.walk(folder):
        dirs.sort()
        h.update(os.path.relpath(root, folder).encode())
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(f.encode())
            with open(p, 'rb') as fh:
                content = fh.read()
            if f.endswith('.json') and b'timestamp' in content:
                content = json.dumps(_mask(json.loads(content)), sort_keys=True).encode()
            if own:
                content = content.replace(os.path.abspath(folder).encode(), b'@')
            h.update(hashlib.blake2b(content, digest_size=8).digest())
    return h.digest()


def snap(grid, spec, settings=None):
    """observable content of a grid: points, surfaces of its resolutions, metadata"""
    s = {'points': obs_points(grid), 'meta': meta(grid)}
    s['surface'] = {}
    if not grid.is_empty and not grid.no_grid:
        for res in grid.resolutions:
            s['surface'][float(res)] = obs_surface(grid, res, [l for l in spec.layers if l in (grid.layer_names or spec.layers)])
    return s


META = ['min_x', 'min_y', 'max_x', 'max_y', 'width', 'height', 'min_time', 'max_time', 'number_of_tiles', 'mean_depth', 'epsg', 'vertical_reference',
        'resolutions', 'name', 'sub_type', 'subtile_size', 'tile_size', 'storage_type', 'grid_algorithm', 'grid_resolution', 'grid_parameters', 'is_backscatter',
        'can_grow', 'origin_x', 'origin_y', 'maximum_tiles']


def norm(v):
    if isinstance(v, (np.floating, np.integer)):
        return float(v)
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return float(v)
    if isinstance(v, (list, tuple)):
        return [norm(i) for i in v]
    return v


def meta(grid):
    m = {k: norm(getattr(grid, k)) for k in META if hasattr(grid, k)}
    # a grid that never held points has no extents; on disk they are written as zero
    if grid.is_empty:
        for k in ('min_x', 'min_y', 'max_x', 'max_y', 'width', 'height', 'number_of_tiles', 'maximum_tiles'):
            m[k] = None
    m['container'] = {k: list(v) for k, v in grid.container.items()}
    for k in ('tile_x_origin', 'tile_y_origin', 'tile_edges_x', 'tile_edges_y'):
        v = npa(getattr(grid, k))
        m[k] = None if grid.is_empty or v is None else v.tolist()
    return m


def diff_snap(a, b, what=('points', 'meta', 'surface'), skip_meta=(), tol=1e-9, names=('expected', 'found')):
    """None or a message telling where two snaps differ"""
    if 'points' in what and a['points'] != b['points']:
        for c in sorted(set(a['points']) | set(b['points'])):
            if a['points'].get(c) != b['points'].get(c):
                return 'points of {}: {} {}, {} {}'.format(c, names[0], a['points'].get(c), names[1], b['points'].get(c))
    if 'meta' in what:
        for k in a['meta']:
            if k in skip_meta:
                continue
            if a['meta'][k] != b['meta'].get(k):
                return '{}: {} {}, {} {}'.format(k, names[0], a['meta'][k], names[1], b['meta'].get(k))
    if 'surface' in what:
        if sorted(a['surface']) != sorted(b['surface']):
            return 'surfaces: {} {}, {} {}'.format(names[0], sorted(a['surface']), names[1], sorted(b['surface']))
        for r in a['surface']:
            m = diff_surface(a['surface'][r], b['surface'][r], tol)
            if m:
                return 'surface {}: {}'.format(r, m)
    return None


# ---------------------------------------------------------------------------------------------- automatic resolution

LOOKUP = [(10, 0.25), (20, 0.5), (40, 1.0), (60, 2.0), (80, 4.0), (160, 8.0), (320, 16.0), (640, 32.0), (1280, 64.0), (2560, 128.0), (5120, 256.0),
          (10240, 512.0), (20480, 1024.0)]


def lookup(depth, size):
    for lim, res in LOOKUP:
        if lim > depth:
            return float(min(res, size))
    return float(min(LOOKUP[-1][1], size))


def leaf_resolutions(model, size):
    """leaf square -> resolution the depth lookup gives for the mean depth of its points"""
    out = {}
    for k, lst in model.by_square(size).items():
        out[k] = lookup(math.fsum(float(p['z']) for _, p in lst) / len(lst), size)
    return out


def expected(model, alg, res, auto):
    """{resolution: surface} that gridding all points gives; only fixed and depth based resolutions"""
    spec = model.spec
    if res is not None:
        return {float(res): model.surface(float(res), alg)}
    if auto != 'depth':
        raise ValueError(auto)
    if spec.kind == 'sr':
        r = lookup(model.mean_depth(), spec.tile)
        return {r: model.surface(r, alg)}
    lr = leaf_resolutions(model, spec.sub)
    out = {}
    for r in sorted(set(lr.values())):
        s = model.surface(r, alg)
        n = spec.sub / r
        out[r] = {k: v for k, v in s.items() if lr[(fdiv(k[0], n), fdiv(k[1], n))] == r}
    return out


def check_surface(grid, model, alg, res, auto, what='surface', ret=None):
    exp = expected(model, alg, res, auto)
    rs = sorted(float(r) for r in grid.resolutions)
    require(rs == sorted(exp), '{}: resolutions are {}, should be {}'.format(what, rs, sorted(exp)))
    if ret is not None:
        require(sorted(ret) == sorted(exp), '{}: grid returned {}, should be {}'.format(what, ret, sorted(exp)))
    for r in exp:
        got = obs_surface(grid, r, model.spec.layers)
        same_surface(exp[r], got, '{} at {}'.format(what, r))
    return exp


_fresh = {}


def fresh_snap(spec, worldname, names, alg, res, auto):
    """snap of a grid in memory to which the containers were added in order of name and gridded once"""
    key = (repr(sorted(spec.json().items())), worldname, tuple(sorted(names)), alg, res, auto)
    if key not in _fresh:
        s = Spec(**dict(spec.json(), backend='numpy'))
        g = s.create()
        for n in sorted(names):
            g.add_points(s.pts(WORLDS[worldname][n]), n, ['file_' + n], 26917, 'waterline', progress_bar=False)
        g.grid(alg, res, auto_resolution_mode=auto or 'depth', progress_bar=False)
        _fresh[key] = snap(g, s)
        _fresh[key]['layers'] = sorted(g.layer_names)
    return _fresh[key]
