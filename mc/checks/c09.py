"""C09 extents are aligned, cover all points, and grow without moving anything"""
import itertools
import os

import numpy as np

from .. import env
from .. import world as W
from ..core import task, Violation, guarded, full
from bathygrid.maingrid import SRGrid, VRGridTile, SRGridZarr, VRGridTileZarr
from bathygrid.convenience import load_grid

LEVEL = 'model_checking'
RULE = ('every sequence of additions of one- and two-point containers at the positions of a lattice around the grid, with griddings and removals in between; after every '
        'operation extents, edges, origins and tile positions are checked and every tile that was there before is compared with itself')

EPS = 1.0 / 1024
AX = [-9.0, -4.0, -EPS, 0.0, 1.5, 4.0 - EPS, 4.0, 9.5]
AX5 = [-4.0, -EPS, 1.5, 4.0, 12.0]


def make(spec, origin, folder=''):
    if spec.kind == 'sr':
        cls = SRGrid if spec.backend == 'numpy' else SRGridZarr
        return cls(min_x=origin[0], min_y=origin[1], tile_size=spec.tile, output_folder=folder)
    cls = VRGridTile if spec.backend == 'numpy' else VRGridTileZarr
    return cls(min_x=origin[0], min_y=origin[1], tile_size=spec.tile, subtile_size=spec.sub, output_folder=folder)


def check_extents(g, m, origin, first):
    sp = m.spec
    ox, oy = origin
    T = sp.tile
    if g.is_empty:
        return
    a = m.all()
    for lo, hi, o, v, nm in ((g.min_x, g.max_x, ox, a['x'], 'x'), (g.min_y, g.max_y, oy, a['y'], 'y')):
        for e in (lo, hi):
            W.require(abs((e - o) / T - round((e - o) / T)) < 1e-9, 'extent {} {} is not a multiple of the tile size from origin {}'.format(nm, e, o))
        W.require(lo <= v.min() and v.max() < hi, '{} from {} to {} does not cover points from {} to {}'.format(nm, lo, hi, v.min(), v.max()))
        if first:
            W.require(lo == o + W.fdiv(v.min() - o, T) * T, '{} starts at {} for points from {}'.format(nm, lo, v.min()))
            W.require(hi == o + (W.fdiv(v.max() - o, T) + 1) * T, '{} ends at {} for points up to {}'.format(nm, hi, v.max()))
    nx, ny = int(round((g.max_x - g.min_x) / T)), int(round((g.max_y - g.min_y) / T))
    W.require(g.tiles.shape == (ny, nx), '{} tiles for extents {}'.format(g.tiles.shape, g.return_extents()))
    W.require(g.return_extents() == [[g.min_x, g.min_y], [g.max_x, g.max_y]], 'return_extents {}'.format(g.return_extents()))
    W.require(g.width == g.max_x - g.min_x and g.height == g.max_y - g.min_y, 'width and height are {} {}'.format(g.width, g.height))
    W.require(W.npa(g.tile_edges_x).tolist() == [g.min_x + i * T for i in range(nx + 1)], 'tile_edges_x {}'.format(g.tile_edges_x))
    W.require(W.npa(g.tile_edges_y).tolist() == [g.min_y + i * T for i in range(ny + 1)], 'tile_edges_y {}'.format(g.tile_edges_y))
    xo, yo = W.npa(g.tile_x_origin), W.npa(g.tile_y_origin)
    W.require(xo.shape == (ny, nx) and yo.shape == (ny, nx), 'origins have shape {} {}'.format(xo.shape, yo.shape))
    W.require((xo == np.array([g.min_x + i * T for i in range(nx)])[None, :]).all(), 'tile_x_origin {}'.format(xo))
    W.require((yo == np.array([g.min_y + i * T for i in range(ny)])[:, None]).all(), 'tile_y_origin {}'.format(yo))
    W.require(g.maximum_tiles == nx * ny, 'maximum_tiles {}'.format(g.maximum_tiles))
    W.require(g.number_of_tiles == sum(1 for t in g.tiles.flat if t is not None), 'number_of_tiles {}'.format(g.number_of_tiles))
    for r in range(ny):
        for c in range(nx):
            t = g.tiles[r, c]
            if t is not None:
                e = [g.min_x + c * T, g.min_y + r * T, g.min_x + (c + 1) * T, g.min_y + (r + 1) * T]
                W.require([t.min_x, t.min_y, t.max_x, t.max_y] == e, 'tile at row {} column {} has extents {}, should be {}'.format(r, c, [t.min_x, t.min_y, t.max_x, t.max_y], e))
    bx, by = g.get_tile_boundaries()
    drawn = set(zip(np.asarray(bx).tolist(), np.asarray(by).tolist()))
    corners = {(g.min_x + c * T, g.min_y + r * T) for r in range(ny + 1) for c in range(nx + 1)}
    W.require(corners <= drawn, 'the tile boundaries drawn do not pass {}'.format(sorted(corners - drawn)[:2]))
    gt = [float(v) for v in g.get_geotransform(T)]
    W.require(gt == [g.min_x, T, 0.0, g.max_y, 0.0, -T], 'geotransform {}'.format(gt))


def content(g):
    """every leaf tile by its coordinates, with everything it holds"""
    return {(t.min_x, t.min_y, t.max_x, t.max_y): (t.name, {c: sorted(W.ptuple(p) for p in W.npa(t.data)[s:e]) for c, (s, e) in t.container.items()},
                                                   {float(r): {l: W.npa(v).tolist() for l, v in t.cells[r].items()} for r in t.cells}) for *_, t in W.leaves(g)}


def sequence(part, spec, origin, steps, disk=None):
    """steps: ('add', points) | ('rm', i) | ('grid',)"""
    g = make(spec, origin, disk or '')
    m = W.Model(spec)
    n = 0
    grown = 0
    first = True
    surf = None
    res = spec.sub / 2
    for st in steps:
        before = content(g)
        ext = None if g.is_empty else (g.min_x, g.min_y, g.max_x, g.max_y)
        if st[0] == 'add':
            rws = [(x, y, 10. + n + i, 1., 1.) for i, (x, y) in enumerate(st[1])]
            arr = spec.pts(rws)
            name = 'c{}'.format(n)
            n += 1
            first = g.is_empty
            g.add_points(spec.pts(rws), name, progress_bar=False)
            m.add(name, arr)
            after = content(g)
            for k in before:
                W.require(k in after, 'tile {} is gone after an addition'.format(k[:2]))
                W.require(after[k][0] == before[k][0], 'tile {} was {} and is now {}'.format(k[:2], before[k][0], after[k][0]))
                for c, p in before[k][1].items():
                    W.require(after[k][1].get(c) == p, 'tile {} container {}: had {}, has {}'.format(k[:2], c, p, after[k][1].get(c)))
                W.require(repr(after[k][2]) == repr(before[k][2]), 'tile {}: the surface changed by an addition, from {} to {}'.format(k[:2], before[k][2], after[k][2]))
            if ext and not first:
                W.require(g.min_x <= ext[0] and g.min_y <= ext[1] and g.max_x >= ext[2] and g.max_y >= ext[3], 'extents shrank from {} to {}'.format(ext, g.return_extents()))
            if surf is not None and not first:
                W.same_surface(surf, W.obs_surface(g, res, spec.layers, *origin), 'surface after growing')
        elif st[0] == 'rm':
            if st[1] == 'all':
                for c in list(m.held):
                    g.remove_points(c, progress_bar=False)
                    m.remove(c)
            else:
                name = 'c{}'.format(st[1])
                g.remove_points(name, progress_bar=False)
                m.remove(name)
            first = False
            surf = None
            if not g.is_empty:
                W.require((g.min_x, g.min_y, g.max_x, g.max_y) == ext, 'extents changed from {} to {} by a removal'.format(ext, g.return_extents()))
        elif st[0] == 'grid':
            g.grid('mean', res, progress_bar=False)
            surf = W.obs_surface(g, res, spec.layers, *origin)
            W.same_surface(m.surface(res, 'mean', None, *origin), surf, 'gridded')
        elif st[0] == 'load':
            g = load_grid(disk)
        part.transitions += 1
        part.checks += 1
        W.check_placement(g, m, *origin)
        check_extents(g, m, origin, first)
        part.state((spec.kind, origin, g.is_empty or (g.min_x, g.min_y, g.max_x, g.max_y), sorted(content(g))))


def absolute(spec, origin, steps, scale):
    ox, oy = origin
    return [('add', [(ox + x * scale, oy + y * scale) for x, y in s[1]]) if s[0] == 'add' else s for s in steps]


@task
def lattice(part, spec, origin, first, axis, length, between, scale=1.0):
    sp = W.Spec(**spec)
    pts = [(x, y) for x in axis for y in axis]
    for rest in itertools.product(range(len(pts)), repeat=length - 1):
        seq = [pts[first]] + [pts[i] for i in rest]
        steps = []
        for i, p in enumerate(seq):
            steps.append(('add', [p]))
            if between and i < len(seq) - 1:
                steps.append(('grid',))
        if between == 'rm':
            steps += [('rm', 0), ('grid',)] if len(seq) > 1 else []
        steps.append(('grid',))
        steps = absolute(sp, origin, steps, scale)
        case = {'spec': spec, 'origin': origin, 'steps': steps}
        part.sample(case)
        guarded(part, case, sequence, part, sp, tuple(origin), steps)
        part.executions += 1
        if full(part):
            return


@task
def restart(part, spec, origin, axis, disk=False):
    """two point containers, emptied and started again somewhere else"""
    sp = W.Spec(**spec)
    pts = [(x, y) for x in axis for y in axis]
    for i, j in itertools.product(range(len(pts)), repeat=2):
        if disk and (i * 7 + j) % 5:
            continue
        k = (i * 3 + j) % len(pts)
        steps = [('add', [pts[i], pts[k]]), ('grid',), ('rm', 'all'), ('add', [pts[j]]), ('add', [pts[k], pts[i]]), ('rm', 1), ('grid',), ('add', [pts[i]])]
        if disk:
            steps = [s for st in steps for s in (st, ('load',)) if not (s[0] == 'load' and st[0] == 'rm' and st[1] == 'all')]
        steps = absolute(sp, origin, steps, 1.0)
        case = {'spec': spec, 'origin': origin, 'steps': steps}
        part.sample(case)
        if disk:
            with env.scratch() as d:
                guarded(part, case, sequence, part, sp, tuple(origin), steps, os.path.join(d, 'g'))
        else:
            guarded(part, case, sequence, part, sp, tuple(origin), steps)
        part.executions += 1
        if full(part):
            return


def plan(run):
    t = run.thorough
    O = {'zero': (0.0, 0.0), 'off': (1.5, -2.25), 'utm': (500000.0, 4500000.0), 'utmoff': (500001.5, 4499999.75)}
    ax = AX
    n2 = len(AX) ** 2
    for kind in ('sr', 'vr'):
        for o in O:
            for f in range(0, n2):
                if not t and (o in ('off', 'utm')) and f % 2:
                    continue
                run.add(lattice, spec=W.Spec(kind=kind).json(), origin=O[o], first=f, axis=AX, length=2, between='grid')
        for f in range(25):
            run.add(lattice, spec=W.Spec(kind=kind).json(), origin=O['utm' if kind == 'sr' else 'zero'], first=f, axis=AX5, length=3 if not t else 4 if kind == 'sr' else 3, between='grid' if t else 'rm')
        for T, S in ((0.5, 0.25), (1024.0, 512.0)):
            for f in range(0, 25):
                run.add(lattice, spec=W.Spec(kind=kind, tile=T, sub=S, backend='zarr').json(), origin=O['utmoff' if T < 1 else 'off'], first=f, axis=AX5, length=2, between='rm' if T < 1 else False, scale=T / 4)
        for o in O:
            run.add(restart, spec=W.Spec(kind=kind).json(), origin=O[o], axis=AX5)
    for kind in ('sr',) + (('vr',) if t else ()):
        for backend in ('numpy', 'zarr') if t else ('numpy',):
            run.add(restart, spec=W.Spec(kind=kind, backend=backend).json(), origin=O['utmoff'], axis=[-4.0, 1.5, 4.0], disk=True)
            run.add(restart, spec=W.Spec(kind=kind, backend=backend).json(), origin=O['zero'], axis=[-EPS, 0.0, 9.5], disk=True)
    run.bound(additions=4 if t else 3, lattice_positions=n2, origins=len(O), tile_sizes=[0.5, 4.0, 1024.0])
    run.assumptions = ['how far the upper edges extend beyond the points after the first addition is not specified (the code keeps spare tiles there)']
