"""C22 slope layers are the plane fit of the current points of each cell"""
import copy
import math
from fractions import Fraction as F

import numpy as np

from .. import ops
from .. import world as W
from ..core import task, guarded, full, Violation
from bathygrid.convenience import load_grid

LEVEL = 'model_checking'
RULE = ('every history of adds, removals, griddings, slope queries and reloads up to the stated length, and every combination of gradient signs, cell sizes and coordinates; in every state that has no '
        'ungridded points the slopes of every resolution are compared with the exact least squares plane of the points of each cell')

LAYERS = ['x_slope', 'y_slope']


def cluster(cx, cy, size, z, gx, gy, n, bump=0.0):
    """n points around a place in a cell, on a plane, one of them off it by bump"""
    offs = ((0.125, 0.125), (0.75, 0.25), (0.375, 0.875), (0.625, 0.5), (0.25, 0.5), (0.875, 0.75), (0.0, 0.0))[:n]
    return [(cx + u * size, cy + v * size, z + gx * u * size + gy * v * size + (bump if i == n - 1 else 0.0)) for i, (u, v) in enumerate(offs)]


SLOPES = {
    # cell (0,0): A and B with different planes; C and D in other subtiles and tiles; at 0.5, 1 and 2
    'A': W.rows(*(cluster(0, 0, 1, 10, 1, -2, 4, 0.5) + cluster(2, 0, 0.5, 14, -0.5, 0.25, 3)), seed=0),
    'B': W.rows(*(cluster(0, 0, 1, 12, -1.5, 0.5, 3) + cluster(0, 2, 2, 20, 0, 3, 5, -1)), seed=1),
    'C': W.rows(*(cluster(2, 0, 0.5, 16, 2, 0, 5, 0.25) + cluster(5, 1, 1, 30, 0.25, 0.125, 6, 2)), seed=2),
    'D': W.rows(*(cluster(-2, 1, 1, 40, -4, 4, 3) + [(0.5, 3.5, 18.0)]), seed=3),
}
W.WORLDS['slopes'] = SLOPES


def plane(pts):
    """exact gradient of the least squares plane, or None if the points do not determine one well"""
    xs, ys, zs = ([F(float(p[k])) for p in pts] for k in 'xyz')
    n = len(pts)
    if n < 3:
        return None
    mx, my, mz = sum(xs) / n, sum(ys) / n, sum(zs) / n
    sxx = sum((x - mx) ** 2 for x in xs)
    syy = sum((y - my) ** 2 for y in ys)
    sxy = sum((x - mx) * (y - my) for x, y in zip(xs, ys))
    sxz = sum((x - mx) * (z - mz) for x, z in zip(xs, zs))
    syz = sum((y - my) * (z - mz) for y, z in zip(ys, zs))
    det = sxx * syy - sxy * sxy
    if sxx + syy == 0 or det < (sxx + syy) ** 2 / 400:
        return None
    return float((sxz * syy - syz * sxy) / det), float((syz * sxx - sxz * sxy) / det)


def compare(part, g, m, resolutions, tol):
    leaf = m.spec.tile if m.spec.kind == 'sr' else m.spec.sub
    for r in resolutions:
        data = g.get_layers_by_name(LAYERS, r)
        got = W.cells_of(g, data, r, LAYERS)
        exp = {}
        held = have(g, r, leaf)
        for k, lst in m.by_square(r).items():
            if (math.floor(k[0] * r / leaf), math.floor(k[1] * r / leaf)) in held:
                exp[k] = plane([p for _, p in lst])
        part.checks += 1
        for k in got:
            W.require(k in exp, 'cell {} at {} holds slopes {} and no points'.format(k, r, got[k]))
        for k, e in exp.items():
            if e is None:
                continue
            part.count('planes_compared')
            W.require(k in got and len(got[k]) == 2, 'cell {} at {} has slopes {}, should be {}'.format(k, r, got.get(k), e))
            gg = (got[k]['x_slope'], got[k]['y_slope'])
            W.require(all(abs(a - b) <= tol * (1 + abs(b)) for a, b in zip(gg, e)), 'cell {} at {} has slopes {}, should be {}'.format(k, r, gg, e))
            part.outcome((r, round(e[0], 6), round(e[1], 6)))


def have(g, r, leaf):
    """leaf squares that are gridded at a resolution"""
    return {(W.fdiv(t.min_x, leaf), W.fdiv(t.min_y, leaf)) for *_, t in W.leaves(g) if r in t.cells}


def rezs(g):
    return sorted({float(r) for *_, t in W.leaves(g) for r in t.cells})


@task
def histories(part, spec, alpha, prefix, depth, disk, world='slopes'):
    sp = W.Spec(**spec)
    tol = 1e-4 if sp.off in ('zero', 'neg') else 1e-3
    ctx = ops.Ctx(sp, world, disk)

    follow(ctx)

    def chk(c, op, h, b):
        if dirty(c.h) or not c.model.held:
            return
        g = copy.deepcopy(c.grid)
        compare(part, g, c.model, rezs(g), tol)
        # asked again, and from the layers already there
        compare(part, g, c.model, rezs(g), tol)
    try:
        ops.explore(part, ctx, prefix, alpha, depth, chk)
    finally:
        ctx.close()


def dirty(h):
    """some points held were not there when a surface that still exists was computed"""
    held, pending, rs = set(), set(), set()
    for op in h:
        if op[0] == 'add':
            held.add(op[1])
            pending.add(op[1])
        elif op[0] == 'rm':
            held.discard(op[1])
            pending.discard(op[1])
        elif op[0] == 'grid':
            o = ops.gridop(op)
            if o['clear']:
                rs, pending = {(o['res'], o['auto'])}, set()
            elif not rs or rs == {(o['res'], o['auto'])}:
                rs, pending = {(o['res'], o['auto'])}, set()
            else:
                rs.add((o['res'], o['auto']))
    return bool(pending)


def follow(ctx):
    """let the context know its history and an operation that asks for slopes"""
    ctx.h = []
    do0, en0, key0, snap0, rest0, drop0 = ctx.do, ctx.enabled, ctx.key, ctx.snapshot, ctx.restore, ctx.drop

    def do(op):
        if op[0] == 'slope':
            for r in rezs(ctx.grid):
                ctx.grid.get_layers_by_name(LAYERS, r)
        else:
            do0(op)
        ctx.h.append(op)

    def enabled(op):
        return bool(ctx.model.held) and not dirty(ctx.h) if op[0] == 'slope' else en0(op)

    def restore(s):
        rest0(s[0])
        ctx.h = list(s[1])
    ctx.do, ctx.enabled, ctx.restore = do, enabled, restore
    ctx.key = lambda: (key0(), dirty(ctx.h))
    ctx.snapshot = lambda: (snap0(), list(ctx.h))
    ctx.drop = lambda s: drop0(s[0])


@task
def planes(part, spec, res, sizes, grads, counts):
    """all gradients, numbers of points, cell sizes in a grid with one container per cell of a row"""
    sp = W.Spec(**spec)
    tol = 1e-4 if sp.off in ('zero', 'neg') else 1e-3
    for n in counts:
        for gx in grads:
            for gy in grads:
                def one():
                    pts = []
                    for i in range(-2, 4):
                        pts += cluster(i * res, (i % 3 - 1) * res, res, 20 + i, gx * (1 if i % 2 else -1), gy, n, bump=res * 0.25 if n > 3 else 0.0)
                    c = ops.Ctx(sp, {'A': W.rows(*pts)})
                    c.do(['add', 'A'])
                    c.do(['grid', 'mean', res, 'full', None, True])
                    part.transitions += 2
                    compare(part, c.grid, c.model, [res], tol)
                    part.state((repr(sp.json()), res, n, gx, gy))
                guarded(part, {'spec': sp.json(), 'resolution': res, 'points per cell': n, 'gradient': [gx, gy]}, one)
                part.executions += 1
                if full(part):
                    return


@task
def soundings(part, spec, res, sides, grads):
    """cells with side x side soundings each"""
    sp = W.Spec(**spec)
    tol = 1e-4 if sp.off in ('zero', 'neg') else 1e-3
    for n in sides:
        for gx, gy in grads:
            def one():
                pts = []
                for i in range(2):
                    for j, k in ((j, k) for j in range(n) for k in range(n)):
                        u, v = (j + 0.5) / n, (k + 0.25) / n
                        pts.append((i * res + u * res, -i * res + v * res, 20.0 + gx * u * res + gy * v * res + (0.125 * res if (j * n + k) % 7 == 0 else 0.0)))
                c = ops.Ctx(sp, {'A': W.rows(*pts)})
                c.do(['add', 'A'])
                c.do(['grid', 'mean', res, 'full', None, True])
                part.transitions += 2
                compare(part, c.grid, c.model, [res], tol)
                part.state((repr(sp.json()), res, n, gx, gy))
            guarded(part, {'spec': sp.json(), 'resolution': res, 'soundings per cell': n * n, 'gradient': [gx, gy]}, one)
            part.executions += 1
            if full(part):
                return


def plan(run):
    t = run.thorough
    names = ['A', 'B', 'C', 'D']
    for kind in ('sr', 'vr'):
        for backend, disk in (('numpy', False), ('numpy', True), ('zarr', True)):
            a = [['add', n] for n in (names if not disk else names[:3])] + [['rm', n] for n in (names if not disk else names[:3])]
            a += [['grid', 'mean', 1.0, 'full', None, True], ['grid', 'mean', 1.0, 'update', None, False], ['grid', 'shoalest', 0.5, 'full', None, True], ['slope']]
            if not disk:
                a += [['grid', 'mean', None, 'full', 'depth', True], ['grid', 'mean', 2.0, 'full', None, False]]
            elif t:
                a += [['reload']]
            d = (5 if not disk else 4) if not t else (6 if not disk else 5)
            for off in ('neg', 'utm') if t and not disk else ('neg',):
                for p in ops.prefixes(a, 2):
                    run.add(histories, spec=W.Spec(kind=kind, backend=backend, off=off).json(), alpha=a, prefix=p, depth=d - 2, disk=disk)
        grads = (-8.0, -0.5, 0.0, 0.25, 3.0)
        for off in ('zero', 'neg', 'utm', 'south'):
            for res, tile, sub in ((0.5, 4.0, 2.0), (1.0, 4.0, 2.0), (2.0, 8.0, 4.0), (16.0, 64.0, 32.0)):
                for bs in (False, True) if off == 'neg' else (False,):
                    run.add(planes, spec=W.Spec(kind=kind, off=off, tile=tile, sub=sub, bs=bs).json(), res=res, sizes=None, grads=grads if t else grads[1:], counts=(3, 4, 6, 7) if t else (3, 6))
        sides = (4, 8, 15, 32, 70) if not t else (3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 25, 32, 50, 70, 100)
        for off in ('zero', 'neg', 'utm', 'south'):
            for res, tile, sub in ((0.25, 4.0, 2.0), (1.0, 4.0, 2.0), (16.0, 64.0, 32.0)):
                for k in sides:
                    run.add(soundings, spec=W.Spec(kind=kind, off=off, tile=tile, sub=sub).json(), res=res, sides=[k], grads=((0.25, -0.5), (-3.0, 0.125), (0.0, 0.0)))
    run.bound(operations=5 if not t else 6, soundings_per_cell=[k * k for k in sides])
    run.assumptions = ['a plane is determined if the points of the cell are spread in both directions', 'slopes in cells without a determined plane are not compared', 'queries while points are not yet gridded are outside']
