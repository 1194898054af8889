"""C04 an update regrid equals a full regrid and touches only what changed"""
import copy

import numpy as np

from .. import ops
from .. import world as W
from ..core import task, Violation

LEVEL = 'model_checking'
# all depths in one band of the lookup, so that the automatic resolution of the whole grid never changes
W.WORLDS['oneband'] = {c: tuple((x, y, 22.0 + abs(z) % 16.0) + tuple(r) for x, y, z, *r in v) for c, v in W.OVERLAP.items()}
# few and many points per cell, so that the resolution by density differs between subtiles and changes with the data
W.WORLDS['dense'] = {c: W.rows(*[(ox + 0.125 + (i % s) * 2.0 / s, oy + 0.125 + (i // s) * 2.0 / s, 20.0 + i) for ox, oy, s in squares for i in range(s * s)], seed=k)
                     for k, (c, squares) in enumerate({'A': ((0, 0, 2), (2, 0, 5)), 'B': ((0, 0, 4), (0, 2, 1)), 'C': ((2, 0, 7), (4, 2, 3))}.items())}
RULE = ('every history over the alphabet up to the stated length on real grids; after every update gridding the grid is compared with the reference model and with a full '
        'gridding of the same data, a second update is run, and in memory the update is repeated on a copy in which every unchanged tile carries a mark')

MARK = 1000.0


def leafkey(ctx, t):
    s = ctx.leafsize()
    return (W.fdiv(t.min_x, s), W.fdiv(t.min_y, s))


def run_grid(g, o):
    return g.grid(o['alg'], o['res'], clear_existing=o['clear'], auto_resolution_mode=o['auto'] or 'depth', regrid_option=o['opt'], progress_bar=False)


def before(ctx, op):
    """marks: on a copy, shift the gridded depths of all tiles without changes; they have to survive the update"""
    if op[0] != 'grid' or ctx.folder:
        return None
    o = ops.gridop(op)
    if o['opt'] != 'update' or o['clear']:
        return None
    g = copy.deepcopy(ctx.grid)
    marked = {}
    dk = ctx.spec.depth
    for *_, t in W.leaves(g):
        if leafkey(ctx, t) not in ctx.touched:
            for r in t.cells:
                t.cells[r][dk] = W.npa(t.cells[r][dk]) + np.float32(MARK)
            marked[leafkey(ctx, t)] = {r: np.array(t.cells[r][dk]) for r in t.cells}
    run_grid(g, o)
    for *_, t in W.leaves(g):
        k = leafkey(ctx, t)
        if k in marked:
            for r in marked[k]:
                W.require(r in t.cells and np.array_equal(W.npa(t.cells[r][dk]), marked[k][r], equal_nan=True),
                          'tile {} has not changed since the last gridding, yet the update replaced its values at {}'.format(k, r))
    return len(marked)


def check(ctx, op, history, b):
    if op[0] != 'grid':
        return
    g, m = ctx.grid, ctx.model
    o = ops.gridop(op)
    if o['auto'] != 'density':
        W.check_surface(g, m, o['alg'], o['res'], o['auto'], 'after {}'.format(op[1:]), ctx.returned)
    if o['opt'] != 'update':
        return
    f = W.fresh_snap(ctx.spec, ctx.wname, list(m.held), o['alg'], o['res'], o['auto'])
    s = W.snap(g, ctx.spec)
    d = W.diff_snap(f, s, what=('points', 'surface'), names=('full', 'update'))
    if d:
        raise Violation(d)
    for k in ('resolutions', 'mean_depth', 'grid_algorithm', 'grid_resolution', 'number_of_tiles'):
        W.require(f['meta'][k] == s['meta'][k], '{}: full {}, update {}'.format(k, f['meta'][k], s['meta'][k]))
    W.require(sorted(g.layer_names) == f['layers'], 'layers: full {}, update {}'.format(f['layers'], g.layer_names))
    # nothing is left to do
    W.require(not g.point_count_changed, 'the grid reports changed points right after an update')
    if ctx.folder:
        ret = run_grid(g, o)
        s2 = W.snap(g, ctx.spec)
    else:
        g2 = copy.deepcopy(g)
        ret = run_grid(g2, o)
        s2 = W.snap(g2, ctx.spec)
    d = W.diff_snap(s, s2, names=('first update', 'second update'))
    if d:
        raise Violation(d)
    W.require([float(r) for r in ret] == s['meta']['resolutions'], 'second update returned {}, first {}'.format(ret, s['meta']['resolutions']))


@task
def explore(part, spec, world, disk, alpha, prefix, depth):
    sp = W.Spec(**spec)
    ctx = ops.Ctx(sp, world, disk)
    try:
        def chk(c, op, h, b):
            part.checks += 1
            check(c, op, h, b)
            if b:
                part.count('marked_tiles', b)
            if op[0] == 'grid' and op[3] == 'update':
                part.count('updates')
                part.outcome(W.state_digest(c.grid))
        ops.explore(part, ctx, prefix, alpha, depth, chk, before)
    finally:
        ctx.close()


def alphabet(cs, grids, reload=False):
    a = [['add', c] for c in cs] + [['rm', c] for c in cs] + [list(g) for g in grids]
    if reload:
        a.append(['reload'])
    return a


def pair(alg, res, auto=None):
    # with an automatic resolution a full gridding that does not clear keeps the surfaces at earlier resolutions on purpose
    return [['grid', alg, res, 'full', auto, res is None], ['grid', alg, res, 'update', auto, False]]


def plan(run):
    t = run.thorough
    mem = 6 if t else 4
    for kind in ('sr', 'vr'):
        for off, world, cs, grids in (('utm', 'overlap', 'ABC', pair('mean', 1.0)), ('zero', 'nogrow', 'ABD', pair('shoalest', 0.5)), ('neg', 'bands', 'ABC', pair('mean', None, 'depth'))):
            if kind == 'sr' and world == 'bands':
                continue   # one resolution for the whole grid: it may change with the data, an update is then not defined
            a = alphabet(cs, grids)
            for pre in ops.prefixes(a, 2):
                run.add(explore, spec=W.Spec(kind=kind, off=off).json(), world=world, disk=False, alpha=a, prefix=pre, depth=mem)
    for kind, world, auto in (('sr', 'oneband', 'depth'), ('vr', 'oneband', 'depth'), ('vr', 'dense', 'density')):
        a = alphabet('ABC', pair('mean' if world == 'dense' else 'shoalest', None, auto))
        for pre in ops.prefixes(a, 2):
            run.add(explore, spec=W.Spec(kind=kind, off='utm', backend='zarr' if kind == 'sr' else 'numpy').json(), world=world, disk=False, alpha=a, prefix=pre, depth=mem - 1)
    # an update that clears is a full regrid, also with another method or resolution
    for kind in ('sr', 'vr'):
        a = alphabet('AB', [['grid', 'mean', 1.0, 'full', None, False], ['grid', 'shoalest', 2.0, 'full', None, True], ['grid', 'mean', 1.0, 'update', None, True]])
        for pre in ops.prefixes(a, 2):
            run.add(explore, spec=W.Spec(kind=kind, off='utm').json(), world='overlap', disk=False, alpha=a, prefix=pre, depth=3)
    for backend in ('numpy', 'zarr'):
        for kind in ('sr', 'vr'):
            a = alphabet('ABC' if t else 'AB', pair('mean', None, 'depth') if kind == 'vr' else pair('mean', 1.0), True)
            for pre in ops.prefixes(a, 3):
                if not any(o[0] == 'grid' for o in pre) and not t:
                    continue   # nothing to update within the remaining steps
                run.add(explore, spec=W.Spec(kind=kind, off='utm', backend=backend).json(), world='bands' if kind == 'vr' else 'overlap', disk=True, alpha=a, prefix=pre, depth=3 if t else 2)
    run.bound(operations_in_memory=2 + mem, operations_on_disk=6 if t else 5)
    run.assumptions = ['unchanged settings: same method and resolution or automatic mode; for single resolution the automatic mode has to give the same resolution as before, since an update is '
                       'documented to leave tiles without changes alone']
