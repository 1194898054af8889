"""C21 neighbours of tiles and the points along the shared edges"""
import itertools

import numpy as np

from .. import ops
from .. import world as W
from ..core import task, guarded, full, Violation
from bathygrid.bgrid import BathyGrid

LEVEL = 'model_checking'
RULE = ('every occupied subset of a lattice of tiles, reached by adding its tiles or by adding all tiles and removing the others (and reloaded, on disk); for every tile of the grid and of its subgrids the '
        'neighbours and the neighbour points for every buffer are compared with those computed from coordinates')

STEPS = (0.0, 0.5, 1.5, 2.0, 3.0, 3.875)
BUFFERS = (0, 0.125, 0.5, 1, 2.0, 2.5, 4.0, 9)


def lattice(n, tile=4.0, few=False):
    """one container per tile"""
    out = {}
    for i, j in itertools.product(range(n[0]), range(n[1])):
        pts = [(i * tile + x, j * tile + y) for a, x in enumerate(STEPS) for b, y in enumerate(STEPS) if not few or (a + 2 * b + i + j) % 3 == 0]
        out['{}{}'.format(i, j)] = W.rows(*[(x, y, 10.0 + 50 * i + 7 * j + k * 0.125) for k, (x, y) in enumerate(pts)], seed=i + 3 * j)
    return out


def tiles_of(g):
    return {} if g.tiles is None else {(float(t.min_x), float(t.min_y)): t for t in g.tiles.flat if t is not None and t.points_count}


def points(pts, dist, buf):
    return sorted(W.ptuple(p) for p in pts if dist(p) <= buf)


def look(part, g, model, size, sub):
    """size: side of the tiles of g"""
    at = {}
    for arr in model.held.values():
        for p in arr:
            at.setdefault((W.fdiv(float(p['x']), size) * size, W.fdiv(float(p['y']), size) * size), []).append(p)
    ts = tiles_of(g)
    inside = None if not sub else {k for k in at if g.min_x <= k[0] < g.max_x and g.min_y <= k[1] < g.max_y}
    W.require(set(ts) == (set(at) if inside is None else inside), 'tiles are {}, should be {}'.format(sorted(ts), sorted(at)))
    for (x, y), t in ts.items():
        nb = g.get_tile_neighbors(t)
        keys = [(x, y - size), (x + size, y), (x, y + size), (x - size, y)]
        exp = [ts.get(k) for k in keys]
        W.require(len(nb) == 4 and all(a is b for a, b in zip(nb, exp)), 'neighbours of the tile at {} are {}, should be {}'.format(
            (x, y), [None if a is None else (a.min_x, a.min_y) if hasattr(a, 'min_x') else repr(a) for a in nb], [None if a is None else k for a, k in zip(exp, keys)]))
        part.checks += 1
        dists = [lambda p: y - float(p['y']), lambda p: float(p['x']) - (x + size), lambda p: float(p['y']) - (y + size), lambda p: x - float(p['x'])]
        for b in BUFFERS:
            want = sorted(q for k, e, d in zip(keys, exp, dists) if e is not None for q in points(at[k], d, b))
            got = g.get_tile_neighbor_points(t, b)
            part.checks += 1
            if got is None:
                W.require(not want, 'no neighbour points within {} of the tile at {}, should be {}'.format(b, (x, y), want[:4]))
                continue
            got = W.npa(got)
            W.require(isinstance(got, np.ndarray) and got.dtype.names == g_fields(model), 'neighbour points are {}'.format(getattr(got, 'dtype', type(got))))
            gl = sorted(W.ptuple(p) for p in got)
            W.require(gl == want, 'neighbour points within {} of the tile at {}: {} points, should be {}; first difference {}'.format(
                b, (x, y), len(gl), len(want), sorted(set(gl) ^ set(want))[:2] or 'in multiplicity'))
            part.outcome((len(want), b))


def g_fields(model):
    return tuple(d[0] for d in W.DTYPES[model.spec.dt])


def look_all(part, g, model):
    spec = model.spec
    if not model.held:
        return
    look(part, g, model, spec.tile, False)
    if spec.kind == 'vr':
        for t in g.tiles.flat:
            if isinstance(t, BathyGrid) and t.points_count:
                look(part, t, model, spec.sub, True)


@task
def subsets(part, spec, n, lo, hi, disk, ways, few=False):
    """the subsets of an n lattice with numbers in [lo, hi)"""
    sp = W.Spec(**spec)
    world = lattice(n, sp.tile, few)
    names = sorted(world)
    for k in range(lo, hi):
        chosen = [nm for i, nm in enumerate(names) if k >> i & 1]
        for way in ways:
            def one():
                c = ops.Ctx(sp, world, disk)
                try:
                    if way == 'add':
                        todo = [['add', nm] for nm in chosen]
                    elif way == 'reverse':
                        todo = [['add', nm] for nm in reversed(chosen)]
                    else:
                        todo = [['add', nm] for nm in names] + ([['grid', 'mean', 1.0, 'full', None, True]] if way == 'gridded' else []) + [['rm', nm] for nm in names if nm not in chosen]
                    if disk and chosen:
                        todo.append(['reload'])
                    for i, op in enumerate(todo):
                        if op[0] == 'reload':
                            look_all(part, c.grid, c.model)
                        c.do(op)
                        part.transitions += 1
                    look_all(part, c.grid, c.model)
                    part.state((repr(sp.json()), n, k, disk))
                finally:
                    c.close()
            guarded(part, {'spec': sp.json(), 'lattice': n, 'tiles': chosen, 'way': way, 'disk': disk}, one)
            part.executions += 1
            if full(part):
                return


def plan(run):
    t = run.thorough

    def split(total, step, **kw):
        for lo in range(0, total, step):
            run.add(subsets, lo=lo, hi=min(total, lo + step), **kw)
    for kind in ('sr', 'vr'):
        for off in ('zero', 'neg') if t else ('neg',):
            s = W.Spec(kind=kind, off=off).json()
            split(512, 64, spec=s, n=(3, 3), disk=False, ways=['add', 'remove'] if not t else ['add', 'reverse', 'remove', 'gridded'], few=not t)
            # longer rows, other number types, backscatter
            split(32, 32, spec=W.Spec(kind=kind, off=off, dt='z', bs=True).json(), n=(5, 1), disk=False, ways=['add', 'remove'])
            split(32, 32, spec=W.Spec(kind=kind, off='utm', dt='f64').json(), n=(1, 5), disk=False, ways=['reverse', 'gridded'])
            for backend in ('numpy', 'zarr'):
                if t:
                    split(512, 16, spec=W.Spec(kind=kind, off=off, backend=backend).json(), n=(3, 3), disk=True, ways=['add', 'gridded'], few=True)
                else:
                    split(16, 4, spec=W.Spec(kind=kind, off=off, backend=backend).json(), n=(2, 2), disk=True, ways=['add', 'gridded'], few=True)
                    split(8, 4, spec=W.Spec(kind=kind, off=off, backend=backend).json(), n=(3, 1), disk=True, ways=['remove'], few=True)
    run.bound(lattice='3 by 3, 5 by 1, 1 by 5 tiles', buffers=list(BUFFERS), distances=list(STEPS))
    run.assumptions = ['lattices of more than three tiles a side behave as these do', 'the order of the neighbours is lower, right, upper, left, as the tests have it']
