"""C25 CUBE gridding hands its engine the right points and keeps what it returns"""
import os

import h5py
import numpy as np

import bathygrid.algorithms
from .. import env, ops, sched
from .. import world as W
from ..core import task, Violation
from .c13 import read_csv, raster_cells, compare_bands
from bathygrid.convenience import load_grid

LEVEL = 'model_checking'
RULE = ('every history of adds, removals, CUBE griddings (sequential and parallel) and reloads up to the stated length, with an engine in place of bathycube that records what it is given; '
        'after every gridding each call is compared with the points of the model, and each layer with what the engine returned')

# points at the borders of tiles (size 4, border 0.4), of subtiles (size 2, border 0.2), at corners, and far from all borders
BORDER = {
    'A': W.rows((3.75, 0.5, 10.), (3.5, 1.5, 11.), (0.5, 3.75, 12.), (0.5, 0.5, 8.), (1.875, 0.625, 9.), (2.125, 0.5, 14.), (0.25, 0.375, 7.), (0.375, 0.125, 7.), seed=0),
    'B': W.rows((4.25, 0.5, 21.), (4.5, 1.5, 25.), (0.5, 4.25, 29.), (4.25, 4.25, 23.5), (1.5, 2.125, 18.), (4.0, 2.25, 5.), seed=1),
    'C': W.rows((-0.25, 1.0, 40.), (1.0, -0.25, 44.), (0.625, 0.5, 46.5), (6.125, 1.5, 33.), (5.875, 0.5, 3.), seed=2),
}
W.WORLDS['border'] = BORDER
LAYERS = ['density', 'total_uncertainty', 'hypothesis_count', 'hypothesis_ratio']
PARAMS = {'method': 'prior', 'iho_order': 'special', 'variance_selection': 'max'}
DEFAULT = {'method': 'local', 'iho_order': 'order1a', 'variance_selection': 'cube'}
calls = []


def engine(depth, thu, tvu, x, y, numcols, numrows, min_x, max_y, method, iho_order, resx, resy, variance_selection='cube', **kw):
    """as bathycube does: grids with the northernmost row first, nodes without soundings nearby are empty, soundings outside the area count for nodes close to them"""
    a = [W.npa(v) for v in (x, y, depth, tvu, thu)]
    if len({v.shape for v in a}) != 1:
        raise ValueError('engine: x y z tvu thu have the shapes {}'.format([v.shape for v in a]))
    g = [np.full((numrows, numcols), np.nan, dtype=np.float32) for _ in range(3)] + [np.zeros((numrows, numcols), dtype=int)]
    for r in range(numrows):
        for c in range(numcols):
            near = np.hypot(a[0] - (min_x + (c + 0.5) * resx), a[1] - (max_y - (r + 0.5) * resy)) <= 0.9 * resx
            n = int(np.count_nonzero(near))
            if n:
                g[0][r, c] = a[2][near].astype(np.float64).mean()
                g[1][r, c] = (a[3][near].astype(np.float64) + 3 * a[4][near]).sum() / n / 7
                g[2][r, c] = 1 / (n + 2)
                g[3][r, c] = n
    calls.append({'pts': sorted(zip(*[v.astype(np.float64).tolist() for v in a])), 'shape': (int(numrows), int(numcols)), 'min_x': float(min_x), 'max_y': float(max_y), 'method': method,
                  'iho_order': iho_order, 'variance_selection': variance_selection, 'resx': float(resx), 'resy': float(resy), 'out': [v.copy() for v in g]})
    return g[0], g[1], g[2], g[3]


bathygrid.algorithms.run_cube_gridding = engine
bathygrid.algorithms.cube_enabled = True


def near_edge(pts, sq, nb, size, buf):
    """points of the square nb that are within buf of the edge it shares with sq"""
    if nb[0] > sq[0]:
        return [p for p in pts if p[0] <= nb[0] * size + buf]
    if nb[0] < sq[0]:
        return [p for p in pts if p[0] >= (nb[0] + 1) * size - buf]
    if nb[1] > sq[1]:
        return [p for p in pts if p[1] <= nb[1] * size + buf]
    return [p for p in pts if p[1] >= (nb[1] + 1) * size - buf]


def borders(by, sq, size, buf, inside=None):
    out = []
    for d in ((0, 1), (1, 0), (0, -1), (-1, 0)):
        nb = (sq[0] + d[0], sq[1] + d[1])
        if nb in by and (inside is None or inside(nb)):
            out += near_edge(by[nb], sq, nb, size, buf)
    return out


class Ctx(ops.Ctx):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.leaf = {}       # leaf square -> {layer: array} that gridding left there, and the points it was made of
        self.params = None

    def squares(self, size, names=None):
        return {k: [W.ptuple(p) for _, p in v] for k, v in self.model.by_square(size, names).items()}

    def enabled(self, op):
        if op[0] != 'cube':
            return super().enabled(op)
        if not self.model.held:
            return False
        if op[2] == 'update':
            return self.last is not None and self.last == [op[1], op[3]]
        return True

    def do(self, op):
        if op[0] != 'cube':
            super().do(op)
            if op[0] == 'rm':
                by = self.squares(self.leafsize())
                self.leaf = {k: v for k, v in self.leaf.items() if k in by}
            return
        _, res, opt, auto, clear, par, own = op
        calls.clear()
        kw = dict(clear_existing=bool(clear), auto_resolution_mode=auto or 'depth', regrid_option=opt, progress_bar=False, grid_parameters=dict(PARAMS) if own else None)
        if par:
            cl = sched.Client(par, lambda b, n: reversed(range(n)))
            self.grid.client = cl
            with sched.controlled(cl):
                ret = self.grid.grid('cube', res, use_dask=True, **kw)
            self.grid.client = None
        else:
            ret = self.grid.grid('cube', res, **kw)
        self.verify(op, [float(r) for r in ret])
        self.last = [res, auto]
        self.fresh = True
        self.touched = set()

    def verify(self, op, ret):
        _, res, opt, auto, clear, par, own = op
        size = self.leafsize()
        by = self.squares(size)
        todo = set(by)
        if opt == 'update' and not clear:
            todo = set(by) & self.touched
        got = {}
        for c in calls:
            k = (W.fdiv(c['min_x'], size), W.fdiv(c['max_y'] - size, size))
            W.require(k not in got, 'the engine ran twice for the tile at {}'.format(k))
            W.require(k[0] * size == c['min_x'] and (k[1] + 1) * size == c['max_y'], 'the engine got the corner {} {}, which is no corner of a tile'.format(c['min_x'], c['max_y']))
            got[k] = c
        W.require(set(got) == todo, 'the engine ran for the tiles {}, should for {}'.format(sorted(got), sorted(todo)))
        if self.spec.kind == 'vr':
            n = int(self.spec.tile / size)
            up = self.squares(self.spec.tile)
            rez = W.leaf_resolutions(self.model, size) if res is None else dict.fromkeys(by, float(res))
        else:
            r = W.lookup(self.model.mean_depth(), size) if res is None else float(res)
            rez = dict.fromkeys(by, r)
        want = dict(PARAMS if own else DEFAULT)
        for k, c in got.items():
            what = 'tile {}'.format(k)
            r = rez[k]
            W.require(c['resx'] == c['resy'] == r, '{}: the engine got the resolution {} {}, should be {}'.format(what, c['resx'], c['resy'], r))
            W.require(c['shape'] == (int(size / r),) * 2, '{}: the engine got the size {}'.format(what, c['shape']))
            for s in want:
                W.require(c[s] == want[s], '{}: the engine got {} {}, should be {}'.format(what, s, c[s], want[s]))
            if self.spec.kind == 'sr':
                need = by[k] + borders(by, k, size, size / 10)
                W.require(c['pts'] == sorted(need), '{}: the engine got the points {}, should be {}'.format(what, c['pts'], sorted(need)))
            else:
                parent = (k[0] // n, k[1] // n)
                rim = borders(up, parent, self.spec.tile, self.spec.tile / 10)
                inner = by[k] + borders(by, k, size, size / 10, lambda q: (q[0] // n, q[1] // n) == parent)
                outer = borders(by, k, size, size / 10, lambda q: (q[0] // n, q[1] // n) != parent)
                rest = list(c['pts'])
                for p in inner + outer:
                    W.require(p in rest, '{}: the engine did not get the point {}'.format(what, p))
                    rest.remove(p)
                for p in rest:
                    W.require(p in rim and p not in inner + outer, '{}: the engine got the point {}, which is none of its own nor near its border'.format(what, p))
                    rim.remove(p)
            dens = {}
            for p in by[k]:
                q = (W.fdiv(p[1] - k[1] * size, r), W.fdiv(p[0] - k[0] * size, r))
                dens[q] = dens.get(q, 0) + 1
            d = np.zeros(c['shape'], dtype=int)
            for q, v in dens.items():
                d[q] = v
            o = [v[::-1, :] for v in c['out']]
            old = {} if clear or (opt == 'update') else {x: v for x, v in self.leaf.get(k, {}).items() if x != 'par'}
            old[r] = {self.spec.depth: o[0], 'density': d, 'total_uncertainty': o[1], 'hypothesis_ratio': o[2], 'hypothesis_count': o[3]}
            self.leaf[k] = dict(old, par=want)
        if clear:
            self.leaf = {k: v for k, v in self.leaf.items() if k in todo}
        if opt == 'full':
            W.require(sorted(ret) == sorted({rez[k] for k in by}), 'grid returned {}, should be {}'.format(ret, sorted({rez[k] for k in by})))
        self.look(self.grid, 'live')

    def look(self, grid, name):
        size = self.leafsize()
        seen = set()
        for *_, t in W.leaves(grid):
            k = (W.fdiv(float(t.min_x), size), W.fdiv(float(t.min_y), size))
            exp = {r: v for r, v in self.leaf.get(k, {}).items() if r != 'par'}
            seen.add(k)
            got = {float(r): v for r, v in t.cells.items()}
            W.require(set(got) == set(exp), '{} tile {}: surfaces at {}, should be at {}'.format(name, k, sorted(got), sorted(exp)))
            for r in exp:
                W.require(set(got[r]) == set(exp[r]), '{} tile {} at {}: layers {}, should be {}'.format(name, k, r, sorted(got[r]), sorted(exp[r])))
                for l in exp[r]:
                    self.same(exp[r][l], W.npa(got[r][l]), '{} tile {} at {}: {}'.format(name, k, r, l))
        missing = {k for k, v in self.leaf.items() if len(v) > 1} - seen
        W.require(not missing, '{}: no tile at {}'.format(name, sorted(missing)))
        if not self.leaf or grid.no_grid:
            return
        # assembled layers
        names = [self.spec.depth] + LAYERS
        W.require(sorted(grid.layer_names) == sorted(names), '{}: layer names {}'.format(name, grid.layer_names))
        for r in grid.resolutions:
            exp = {}
            n = int(size / r)
            for k, v in self.leaf.items():
                if r in v:
                    for l in names:
                        for i, j in np.ndindex(n, n):
                            x = v[r][l][i, j]
                            if x if l in ('density', 'hypothesis_count') else not np.isnan(x):
                                exp.setdefault((k[0] * n + j, k[1] * n + i), {})[l] = float(x)
            got = W.obs_surface(grid, r, names)
            W.same_surface(exp, got, '{} at {}'.format(name, r))

    @staticmethod
    def same(exp, got, what):
        W.require(exp.shape == got.shape, '{}: shape {}, should be {}'.format(what, got.shape, exp.shape))
        e, g = exp.astype(np.float64), got.astype(np.float64)
        bad = ~((np.isnan(e) & np.isnan(g)) | (np.abs(e - g) <= 0.0007))
        if bad.any():
            i, j = np.argwhere(bad)[0]
            raise Violation('{}: row {} column {} is {}, the engine returned {}'.format(what, i, j, g[i, j], e[i, j]))

    def files(self):
        """exported files hold the layers"""
        size = self.leafsize()
        for r in self.grid.resolutions:
            n = int(size / r)
            exp = {}
            for k, v in self.leaf.items():
                if r in v:
                    for i, j in np.argwhere(~np.isnan(v[r][self.spec.depth])):
                        exp[(k[0] * n + int(j), k[1] * n + int(i))] = {l: float(x[i, j]) for l, x in v[r].items()}
            dens = {}
            for k, v in self.leaf.items():
                if r in v:
                    for i, j in np.argwhere(v[r]['density'] > 0):
                        dens[(k[0] * n + int(j), k[1] * n + int(i))] = int(v[r]['density'][i, j])
            with env.scratch() as d:
                self.grid.export(os.path.join(d, 'o.csv'), 'csv', resolution=r)
                W.require(os.listdir(d) == ['o_{}.csv'.format(r)], 'csv export wrote {}'.format(os.listdir(d)))
                head, rows = read_csv(os.path.join(d, 'o_{}.csv'.format(r)))
                names = {'depth': 'elevation'}
                W.require(sorted(head) == sorted(['x', 'y', 'elevation'] + LAYERS), 'csv columns are {}'.format(head))
                got = {}
                for row in rows:
                    v = dict(zip(head, row))
                    k = (W.fdiv(v['x'], r), W.fdiv(v['y'], r))
                    W.require(k not in got, 'csv holds node {} twice'.format(k))
                    got[k] = v
                for k, v in got.items():
                    W.require((dens.get(k, 0) == v['density']) or (k not in dens and np.isnan(v['density'])), 'csv at {}: density of cell {} is {}, should be {}'.format(r, k, v['density'], dens.get(k, 0)))
                    if k not in exp:
                        W.require(all(np.isnan(v[l]) or (l == 'hypothesis_count' and v[l] == 0) for l in ('elevation', 'total_uncertainty', 'hypothesis_ratio', 'hypothesis_count')),
                                  'csv at {}: cell {} should be empty and is {}'.format(r, k, v))
                for k, v in exp.items():
                    W.require(k in got, 'csv at {}: cell {} is missing'.format(r, k))
                    for l, x in v.items():
                        x = -x if l == 'depth' else x
                        if l != 'density':
                            W.require(abs(got[k][names.get(l, l)] - x) <= 0.0015, 'csv at {}: {} of cell {} is {}, should be {}'.format(r, l, k, got[k][names.get(l, l)], x))
                for form, ext, bands in (('geotiff', 'tif', ['Elevation', 'Total Uncertainty']), ('bag', 'bag', None)):
                    self.grid.export(os.path.join(d, 'o.' + ext), form, resolution=r)
                    got = {}
                    for f in sorted(f for f in os.listdir(d) if f.endswith('.' + ext)):
                        nm, _ = raster_cells(os.path.join(d, f), f, got, r, 2, 26917, None)
                        W.require(bands is None or nm == bands, '{}: bands are named {}'.format(f, nm))
                        if ext == 'bag':
                            with h5py.File(os.path.join(d, f), 'r') as h:
                                for b, a, lo, hi in (('elevation', 'elevation', 'Minimum Elevation Value', 'Maximum Elevation Value'), ('uncertainty', 'uncertainty', 'Minimum Uncertainty Value', 'Maximum Uncertainty Value')):
                                    x = h['BAG_root'][b][:]
                                    x = x[h['BAG_root']['elevation'][:] != np.float32(1000000.0)]
                                    at = h['BAG_root'][a].attrs
                                    W.require(abs(float(at[lo]) - x.min()) < 1e-3 and abs(float(at[hi]) - x.max()) < 1e-3, '{}: {} range {} to {}, holds {} to {}'.format(f, b, at[lo], at[hi], x.min(), x.max()))
                    compare_bands('{} at {}'.format(form, r), got, exp, ['depth', 'total_uncertainty'], -1.0)

    def query(self):
        """a container query runs the engine with the points of that container"""
        before = W.state_digest(self.grid)
        size = self.leafsize()
        for res in self.grid.resolutions:
            for name in sorted(self.model.held):
                calls.clear()
                got = self.grid.get_layers_by_name(name, res)
                by = self.squares(size, {name})
                n = int(size / res)
                exp = {}
                run = {(W.fdiv(c['min_x'], size), W.fdiv(c['max_y'] - size, size)): c for c in calls}
                for k, pts in by.items():
                    if res not in self.leaf.get(k, {}):
                        continue
                    W.require(k in run, 'query of {} at {}: the engine did not run for tile {}'.format(name, res, k))
                    c = run[k]
                    W.require(c['pts'] == sorted(pts), 'query of {} at {}: the engine got the points {} for tile {}, should be {}'.format(name, res, c['pts'], k, sorted(pts)))
                    W.require(c['resx'] == c['resy'] == res and c['shape'] == (n, n), 'query of {} at {}: the engine got {} {}'.format(name, res, c['resx'], c['shape']))
                    for s, v in self.leaf[k]['par'].items():
                        W.require(c[s] == v, 'query of {} at {}: the engine got {} {} for tile {}, which was gridded with {}'.format(name, res, s, c[s], k, v))
                    d = c['out'][0][::-1, :]
                    for i, j in np.ndindex(n, n):
                        if not np.isnan(d[i, j]):
                            exp[(k[0] * n + j, k[1] * n + i)] = {name: float(d[i, j])}
                W.same_surface(exp, W.cells_of(self.grid, got, res, [name]), 'query of {} at {}'.format(name, res))
        W.require(W.state_digest(self.grid) == before, 'the queries changed the grid in memory')

    def snapshot(self):
        return super().snapshot(), {k: dict(v) for k, v in self.leaf.items()}

    def restore(self, s):
        super().restore(s[0])
        self.leaf = {k: dict(v) for k, v in s[1].items()}

    def drop(self, s):
        super().drop(s[0])


@task
def explore(part, spec, alpha, prefix, depth, disk, query):
    ctx = Ctx(W.Spec(**spec), 'border', disk)
    seen = set()
    try:
        def chk(c, op, h, b):
            if op[0] == 'cube' or op[0] == 'reload' or op[0] == 'rm':
                part.checks += len(c.leaf)
                if op[0] != 'cube':
                    c.look(c.grid, 'after ' + op[0])
                if c.folder:
                    c.look(load_grid(c.folder), 'on disk after ' + op[0])
            if query and c.fresh and c.model.held:
                k = W.digest_of(c.key())
                if k not in seen:
                    seen.add(k)
                    c.query()
                    if spec['backend'] == 'numpy' and not disk:
                        c.files()
                        part.count('states_exported', 1)
                    part.checks += len(c.model.held)
            part.outcome(W.state_digest(c.grid))
        ops.explore(part, ctx, prefix, alpha, depth, chk)
    finally:
        ctx.close()


def plan(run):
    t = run.thorough
    for kind in ('sr', 'vr'):
        for backend in ('numpy', 'zarr'):
            for disk in (False, True):
                if backend == 'zarr' and not disk:
                    continue
                g = [['cube', 1.0, 'full', None, False, 0, True], ['cube', 1.0, 'update', None, False, 0, True], ['cube', 1.0, 'full', None, False, 2, True],
                     ['cube', None, 'full', 'depth', True, 0, False], ['cube', None, 'full', 'depth', True, 3, False], ['cube', 0.5, 'full', None, True, 0, False]]
                if disk and not t:
                    g = g[:2] + g[4:5]
                a = [['add', n] for n in BORDER] + [['rm', n] for n in BORDER] + g + ([['reload']] if disk else [])
                for p in ops.prefixes(a, 2):
                    if p[0][0] == 'add' and p[1][0] in ('add', 'cube'):
                        d = 2 if not disk else 1 if not t else 2
                        if not disk and p[1][0] == 'add' and p[0] < p[1]:  # two containers that share a tile, gridded: what a removal or an addition leaves behind
                            run.add(explore, spec=W.Spec(kind=kind, backend=backend).json(), alpha=a[3:6] + g[:3] + g[5:], prefix=p + g[:1], depth=2 + t, disk=disk, query=False)
                        run.add(explore, spec=W.Spec(kind=kind, backend=backend).json(), alpha=a, prefix=p, depth=d + (1 if t and not disk else 0), disk=disk, query=True)
    run.bound(operations=4 if not t else 5, containers=3, engine='a stand-in for bathycube (not installed) with the same interface, sensitive to every point within 0.9 of a resolution from a node')
    run.assumptions = ['the numbers CUBE itself computes are outside of this library', 'an update does not regrid the neighbours of the changed tiles (documented)', 'all containers have uncertainties']
