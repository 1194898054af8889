"""C17 automatic resolution follows the documented rules for every depth and density"""
import itertools
import math

import numpy as np

from .. import ops
from .. import world as W
from ..core import task, guarded, full, Violation

LEVEL = 'exploration'
RULE = ('every limit of the depth lookup from both sides for every tile size, every number of points around every density threshold, every fill of the coarse cells, every combination of depth bands in '
        'neighbouring subtiles, every order of additions and removals of containers that move tiles from one resolution to another')

MIN_POINTS, NOISE, FILL, START = 5, 0.75, 0.75, 16.0
ALLOWED = [r for _, r in W.LOOKUP]
LIMITS = [l for l, _ in W.LOOKUP]


def density_rule(pts, size, start=START, noise=NOISE):
    """pts: list of (x, y, z) with coordinates relative to the tile"""
    start = min(size, start)
    n = int(round(size / start)) ** 2
    counts = {}
    for x, y, z in pts:
        k = (W.fdiv(x, start), W.fdiv(y, start))
        counts[k] = counts.get(k, 0) + 1
    if len(counts) / n <= FILL:
        mean = math.fsum(p[2] for p in pts) / len(pts)
        if not all(abs(mean - l) > 1e-4 for l in LIMITS):
            return None
        return W.lookup(mean, size)
    est = math.fsum(math.sqrt(2 * MIN_POINTS * (1 + noise) / (c / start ** 2)) * c for c in counts.values()) / len(pts)
    if len(set(counts.values())) > 1:
        for r in ALLOWED:
            if abs(est - r) < 1e-9:
                return None
    for r in ALLOWED:
        if r >= est - 1e-12:
            return float(min(r, size))
    return float(min(ALLOWED[-1], size))


def leaf_points(model, size):
    """leaf square -> points relative to it"""
    return {k: [(float(p['x']) - k[0] * size, float(p['y']) - k[1] * size, float(p['z'])) for _, p in lst] for k, lst in model.by_square(size).items()}


def resolutions(model, mode):
    """leaf square -> resolution, or None if it is not determined"""
    spec = model.spec
    size = spec.tile if spec.kind == 'sr' else spec.sub
    if mode == 'depth':
        if spec.kind == 'sr':
            r = W.lookup(model.mean_depth(), size)
            return {k: r for k in model.by_square(size)}
        return W.leaf_resolutions(model, size)
    each = {k: density_rule(p, size) for k, p in leaf_points(model, size).items()}
    if None in each.values():
        return None
    if spec.kind == 'sr':
        r = max(each.values())
        return {k: r for k in each}
    return each


def verify(part, g, model, mode, ret, alg='mean', full_surface=True):
    spec = model.spec
    size = spec.tile if spec.kind == 'sr' else spec.sub
    want = resolutions(model, mode)
    if want is None:
        part.count('undetermined')
        return
    part.checks += 1
    rs = sorted(set(want.values()))
    got = {}
    for r, c, sr, sc, t in W.leaves(g):
        got[(W.fdiv(t.min_x, size), W.fdiv(t.min_y, size))] = sorted(float(x) for x in t.cells)
    for k in sorted(want):
        W.require(got.get(k) == [want[k]], '{} mode: tile {} is gridded at {}, should be {} (mean depth {}, {} points)'.format(
            mode, k, got.get(k), want[k], np.mean([p[2] for p in leaf_points(model, size)[k]]), len(leaf_points(model, size)[k])))
    W.require(sorted(float(x) for x in g.resolutions) == rs, '{} mode: resolutions are {}, should be {}'.format(mode, g.resolutions, rs))
    W.require(sorted(float(x) for x in ret) == rs, '{} mode: gridding returned {}, should be {}'.format(mode, ret, rs))
    W.require(sorted(float(x) for x in g.cell_count) == rs, '{} mode: cell_count reports {}, resolutions are {}'.format(mode, g.cell_count, rs))
    if full_surface:
        for r in rs:
            n = size / r
            exp = {k: v for k, v in model.surface(r, alg).items() if want[(W.fdiv(k[0], n), W.fdiv(k[1], n))] == r}
            W.same_surface(exp, W.obs_surface(g, r, spec.layers), '{} mode at {}'.format(mode, r))
    part.outcome((mode, spec.kind, size, tuple(sorted(want.values()))))


def asked(part, g, model):
    """the resolution of the density for every starting resolution, and per tile every noise factor"""
    spec = model.spec
    size = spec.tile if spec.kind == 'sr' else spec.sub
    pts = leaf_points(model, size)
    tiles = {(W.fdiv(t.min_x, size), W.fdiv(t.min_y, size)): t for r, c, sr, sc, t in W.leaves(g)}
    for start in [None] + [r for r in ALLOWED if size / 64 <= r <= 2 * size] + [3.0, 0.3]:
        if start in (3.0, 0.3):
            for o in [g] + list(tiles.values()):
                try:
                    o.resolution_by_density(start)
                except ValueError:
                    continue
                raise Violation('resolution_by_density from {} was answered'.format(start))
            continue
        want = {k: density_rule(p, size, start or START) for k, p in pts.items()}
        if None in want.values():
            continue
        part.checks += 1
        got = g.resolution_by_density(start)
        W.require(got == max(want.values()), 'resolution_by_density from {} is {}, should be {}'.format(start, got, max(want.values())))
        for noise in (None, 0.25, 2.0, 14.0):
            for k, t in tiles.items():
                w = density_rule(pts[k], size, start or START, noise or NOISE)
                if w is None:
                    continue
                got = t.resolution_by_density(start, noise)
                W.require(got == w, 'resolution_by_density of tile {} from {} with noise {} is {}, should be {} ({} points)'.format(k, start, noise, got, w, len(pts[k])))
                part.outcome((start, noise, w))


def build(spec, rows, names=1):
    g = spec.create()
    m = W.Model(spec)
    for i in range(names):
        a = spec.pts(rows[i::names])
        if len(a):
            g.add_points(a, 'c{}'.format(i), ['f'], 26917, 'waterline', progress_bar=False)
            m.add('c{}'.format(i), a)
    return g, m


def row(x, y, z, i=0):
    return (x, y, z, 0.25 + (i % 5) * 0.25, 0.5 + (i % 3) * 0.5)


def depths():
    out = [0.0, 0.01, 1.0, 5.0]
    for l in LIMITS:
        out += [l - 0.25, l - 0.01, float(l), l + 0.01, l + 0.25]
    return out + [20481.0, 30000.0]


@task
def depth_limits(part, spec, size, mean_of):
    """one tile, points whose mean is at and around every limit"""
    spec = W.Spec(**spec)
    for d in depths():
        if size / W.lookup(d, size) > 512:
            continue   # too many cells
        case = {'spec': spec.json(), 'mean depth': d, 'points': mean_of}
        part.sample(case)
        part.state(repr(case))

        def run():
            s = size
            if mean_of == 1:
                rows = [row(0.3 * s, 0.6 * s, d)]
            elif mean_of == 2:
                e = min(d, 0.5 * d + 1.0)
                rows = [row(0.3 * s, 0.6 * s, d - e), row(0.8 * s, 0.1 * s, d + e, 1)]
            else:
                e = min(d, 4.0)
                rows = [row(0.3 * s, 0.6 * s, d - e), row(0.8 * s, 0.1 * s, d + e, 1), row(0.0, 0.0, d, 2), row(0.5 * s, 0.5 * s, d - e / 2, 3), row(0.75 * s, 0.5 * s, d + e / 2, 4)]
            g, m = build(spec, rows, 1 if mean_of < 3 else 2)
            # the mean the points have as stored
            if any(abs(m.mean_depth() - l) < 4e-3 and m.mean_depth() != l for l in LIMITS):
                part.count('undetermined')
                return
            verify(part, g, m, 'depth', g.grid('mean', None, progress_bar=False))
        guarded(part, case, run)
        part.executions += 1
        part.transitions += 2
        if full(part):
            return


@task
def bands(part, spec, lattice, values, firsts):
    """every combination of depths in the leaves of a lattice"""
    spec = W.Spec(**spec)
    size = spec.tile if spec.kind == 'sr' else spec.sub
    for vals in itertools.product(firsts, *[values] * (len(lattice) - 1)):
        case = {'spec': spec.json(), 'leaves': lattice, 'depths': vals}
        part.state(repr(case))

        def run():
            rows = [row((c + f) * size, (r + 0.9 - f) * size, v + dz, i) for i, ((r, c), v) in enumerate(zip(lattice, vals)) for f, dz in ((0.1, -0.5), (0.6, 0.5))]
            g, m = build(spec, rows)
            if any(abs(m.mean_depth() - l) < 4e-3 for l in LIMITS):
                return
            for mode in ('depth', 'density'):
                verify(part, g, m, mode, g.grid('shoalest', None, clear_existing=True, auto_resolution_mode=mode, progress_bar=False), 'shoalest', full_surface=True)
        guarded(part, case, run)
        part.executions += 1
        part.transitions += 3
        if full(part):
            return
    part.sample({'spec': spec.json(), 'leaves': lattice, 'depths': values})


def spread(n, x0, y0, cell, z):
    """n points all over a coarse cell, its lower and left edge included"""
    k = int(math.ceil(math.sqrt(n)))
    return [row(x0 + cell * (i % k) / k, y0 + cell * (i // k) / k, z + 0.5 * (i % 3 - 1), i) for i in range(n)]


@task
def counts(part, spec, size, ns):
    """one tile, every number of points in every coarse cell"""
    spec = W.Spec(**spec)
    start = min(size, START)
    k = int(round(size / start))
    for n in ns:
        case = {'spec': spec.json(), 'points per coarse cell': n}
        part.state(repr(case))

        def run():
            rows = []
            for i in range(k):
                for j in range(k):
                    rows += spread(n, i * start, j * start, start, 1005.0)   # a depth whose lookup would be coarse
            g, m = build(spec, rows)
            verify(part, g, m, 'density', g.grid('mean', None, auto_resolution_mode='density', progress_bar=False), full_surface=len(rows) < 400)
            asked(part, g, m)
        guarded(part, case, run)
        part.executions += 1
        part.transitions += 2
        if full(part):
            return
    part.sample({'spec': spec.json(), 'points per coarse cell': [ns[0], ns[-1]]})


@task
def fills(part, spec, size, values, firsts, z):
    """a tile of 2 x 2 coarse cells with every assignment of counts to the cells"""
    spec = W.Spec(**spec)
    start = min(size, START)
    assert size == 2 * start
    for v in itertools.product(firsts, values, values, values):
        if not any(v):
            continue
        case = {'spec': spec.json(), 'points in the coarse cells': v, 'depth': z}
        part.state(repr(case))

        def run():
            rows = []
            for i, n in enumerate(v):
                rows += spread(n, (i % 2) * start, (i // 2) * start, start, z)
            g, m = build(spec, rows)
            verify(part, g, m, 'density', g.grid('mean', None, auto_resolution_mode='density', progress_bar=False), full_surface=False)
            asked(part, g, m)
        guarded(part, case, run)
        part.executions += 1
        part.transitions += 2
        if full(part):
            return
    part.sample({'spec': spec.json(), 'points in each coarse cell': values})


@task
def thirds(part, spec, z):
    """a tile of 4 x 4 coarse cells filled to every degree, from every corner"""
    spec = W.Spec(**spec)
    cells = [(i, j) for i in range(4) for j in range(4)]
    orders = [cells, cells[::-1], sorted(cells, key=lambda c: (c[1], c[0])), sorted(cells, key=lambda c: (c[0] + c[1], c)), sorted(cells, key=lambda c: ((c[0] * 3 + c[1] * 5) % 16, c))]
    for order in orders:
        for filled in range(1, 17):
            for n in (1, 3, 20):
                case = {'spec': spec.json(), 'filled': order[:filled], 'points in each': n, 'depth': z}
                part.state(repr(case))

                def run():
                    rows = []
                    for i, j in order[:filled]:
                        rows += spread(n, i * START, j * START, START, z)
                    g, m = build(spec, rows)
                    verify(part, g, m, 'density', g.grid('mean', None, auto_resolution_mode='density', progress_bar=False), full_surface=False)
                    asked(part, g, m)
                guarded(part, case, run)
                part.executions += 1
                part.transitions += 2
                if full(part):
                    return
    part.sample({'spec': spec.json(), 'filled cells of 16': 'every number in 5 orders'})


# tile 4, subtile 2 or 1: containers that move single leaves over density and depth thresholds
def block(n, x0, y0, size, z):
    return tuple(spread(n, x0, y0, size, z))


HIST = {
    'A': block(20, 0., 0., 1., 9.) + block(75, 2., 0., 1., 30.) + block(1, 1.25, 1.5, 1., 9.7),
    'B': block(60, 0., 0., 1., 13.) + block(4, 2., 0., 1., 44.) + block(19, 4., 4., 1., 100.),
    'C': block(240, 0., 0., 1., 55.) + block(1, 4., 4., 1., 3.) + block(12, 1.25, 1.25, 0.5, 26.),
}


@task
def histories(part, spec, prefix, alphabet, depth):
    spec = W.Spec(**spec)
    ctx = ops.Ctx(spec, HIST)
    try:
        def chk(c, op, h, b):
            if op[0] == 'grid':
                o = ops.gridop(op)
                verify(part, c.grid, c.model, o['auto'], c.returned, o['alg'], full_surface=True)
        ops.explore(part, ctx, prefix, alphabet, depth, chk)
    finally:
        ctx.close()


def sizes(t):
    return [0.5, 1.0, 2.0, 4.0, 16.0, 64.0, 1024.0] if not t else [2.0 ** i for i in range(-2, 12)]


def near(*ts):
    return sorted({n for t in ts for n in (t - 2, t - 1, t, t + 1, t + 2) if n > 0})


def plan(run):
    t = run.thorough
    for kind in ('sr', 'vr'):
        for backend in ('numpy', 'zarr'):
            if backend == 'zarr' and not t:
                some = [2.0, 64.0]
            else:
                some = sizes(t)
            for s in some:
                spec = W.Spec(kind=kind, backend=backend, tile=s if kind == 'sr' else 2 * s, sub=s).json()
                for n in (1, 2, 5):
                    run.add(depth_limits, spec=spec, size=s, mean_of=n)
            v = [5.0, 15.0, 30.0, 50.0, 70.0] if not t else [5.0, 15.0, 30.0, 50.0, 70.0, 100.0, 200.0]
            if backend == 'numpy' or t:
                for f in v:
                    run.add(bands, spec=W.Spec(kind=kind, backend=backend, tile=4.0, sub=2.0).json(), lattice=[(0, 0), (0, 1), (1, 0), (2, 1)], values=v, firsts=[f])
            # around every threshold of a tile with one coarse cell of size s: 17.5 s^2 / n = r^2
            for s in (0.5, 1.0, 2.0, 4.0, 8.0, 16.0):
                spec = W.Spec(kind=kind, backend=backend, tile=s if kind == 'sr' else 2 * s, sub=s).json()
                if t:
                    for k in range(8):
                        run.add(counts, spec=spec, size=s, ns=list(range(1 + k, 1200, 8)))
                elif backend == 'numpy':
                    run.add(counts, spec=spec, size=s, ns=sorted(set(range(1, 24)) | set(near(70, 280)) | ({1119, 1120, 1121} if s == 4.0 else set())))
            for s in (32.0, 64.0):
                spec = W.Spec(kind=kind, backend=backend, tile=s if kind == 'sr' else 2 * s, sub=s).json()
                if backend == 'numpy' or t:
                    run.add(counts, spec=spec, size=s, ns=list(range(1, 8)) + near(18, 70) + ([100, 279, 280, 281] if t else []))
            spec = W.Spec(kind=kind, backend=backend, tile=32.0 if kind == 'sr' else 64.0, sub=32.0).json()
            if backend == 'numpy' or t:
                v = [0, 1, 4, 5, 18, 71] if not t else [0, 1, 2, 4, 5, 17, 18, 70, 71, 281]
                for f in v:
                    for z in ((5.0, 500.0) if t else (55.0 if f % 2 else 500.0,)):
                        run.add(fills, spec=spec, size=32.0, values=v, firsts=[f], z=z)
                for z in (33.0, 105.0):
                    run.add(thirds, spec=W.Spec(kind=kind, backend=backend, tile=64.0 if kind == 'sr' else 128.0, sub=64.0).json(), z=z)
            for sub in (1.0, 2.0):
                if kind == 'sr' and sub != 2.0:
                    continue
                spec = W.Spec(kind=kind, backend=backend, tile=4.0 if kind == 'vr' else 1.0, sub=sub).json()
                g = [['grid', 'mean', None, o, m, o == 'full'] for o in ('full', 'update') for m in ('density', 'depth')]
                a = [['add', n] for n in HIST] + [['rm', n] for n in HIST] + g
                for p in ops.prefixes(a, 2):
                    run.add(histories, spec=spec, prefix=p, alphabet=a, depth=(2 if backend == 'numpy' else 1) if not t else 3)
    run.bound(tile_sizes=sizes(t), depths=len(depths()), operations=4 if not t else 5, cells_per_tile='at most 512 x 512')
    run.assumptions = ['a mean within 4 mm of a limit counts only if it is the limit itself (means are rounded)', 'for mostly empty tiles in density mode means exactly on a limit are not asked',
                       'points are deeper than zero']
