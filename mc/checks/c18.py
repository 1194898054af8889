"""C18 statistics of the surface agree with the surface"""
from unittest import mock

import numpy as np

from .. import ops
from .. import world as W
from ..core import task, guarded, Violation
from bathygrid.convenience import load_grid
import bathygrid.bgrid as bgrid_module

LEVEL = 'model_checking'
RULE = ('every history of adds, removals, griddings (several resolutions at once, automatic, update) and reloads up to the stated length; in every state all statistics are recomputed from the '
        'assembled layers, and in freshly gridded states from the points')

NM = 1852.0 ** 2


def same(a, b, what, tol=1e-6):
    """two multisets of numbers or tuples of numbers"""
    a = sorted(tuple(np.atleast_1d(v).astype(float)) for v in a)
    b = sorted(tuple(np.atleast_1d(v).astype(float)) for v in b)
    W.require(len(a) == len(b), '{}: {} values, should be {}: {} and {}'.format(what, len(b), len(a), b[:8], a[:8]))
    for x, y in zip(a, b):
        W.require(all(abs(p - q) <= tol * max(1.0, abs(p)) for p, q in zip(x, y)), '{}: {} where {} should be'.format(what, y, x))


def stats(part, g, spec, surfs, tol, plots):
    """surfs: {resolution: {cell: {layer: value}}}"""
    part.checks += 1
    dk = spec.depth
    surfs = {r: s for r, s in surfs.items() if s}
    cc = {float(k): v for k, v in g.cell_count.items() if v}
    W.require(cc == {r: len(s) for r, s in surfs.items()}, 'cell_count is {}, should be {}'.format(cc, {r: len(s) for r, s in surfs.items()}))
    cells = [(r, st) for r, s in surfs.items() for st in s.values()]
    den = [st['density'] for _, st in cells]
    dpm = [st['density'] / r ** 2 for r, st in cells]
    same(den, g.density_count, 'density_count')
    same(dpm, g.density_per_square_meter, 'density_per_square_meter')
    if not spec.bs:
        a, b = g.density_count_vs_depth
        W.require(len(a) == len(b), 'density_count_vs_depth: {} densities, {} depths'.format(len(a), len(b)))
        same([(st['density'], st[dk]) for _, st in cells], list(zip(a, b)), 'density_count_vs_depth', tol)
        a, b = g.density_per_square_meter_vs_depth
        W.require(len(a) == len(b), 'density_per_square_meter_vs_depth: {} densities, {} depths'.format(len(a), len(b)))
        same([(st['density'] / r ** 2, st[dk]) for r, st in cells], list(zip(a, b)), 'density_per_square_meter_vs_depth', tol)
    area = sum(r ** 2 for r, _ in cells)
    W.require(abs(g.coverage_area_square_meters - area) <= 1e-6 + 5e-4 * len(list(W.leaves(g))), 'coverage area is {} square meters, should be {}'.format(g.coverage_area_square_meters, area))
    W.require(abs(g.coverage_area_square_nm * NM - area) <= 2e-3 * area + 1e-3, 'coverage area is {} square nautical miles, should be {}'.format(g.coverage_area_square_nm, area / NM))
    names = sorted(spec.layers) if cells else []
    if cells:
        W.require(sorted(g.layer_names) == names, 'layer_names are {}, should be {}'.format(g.layer_names, names))
        W.require(sorted(g.return_layer_names()) == names, 'return_layer_names gives {}, should be {}'.format(g.return_layer_names(), names))
    for l in names:
        v = g.return_layer_values(l)
        exp = [st[l] for _, st in cells]
        if None not in exp:
            same(exp, v, 'values of {}'.format(l), tol)
        else:
            W.require(len(v) == len(exp), 'values of {}: {}, should be {}'.format(l, len(v), len(exp)))
    if plots and cells:
        graphs(part, g, spec, cells, den, dpm, tol)
    part.outcome((sorted(cc.items()), sorted(den), area))


def graphs(part, g, spec, cells, den, dpm, tol):
    dk = spec.depth
    for bins in (1, 3, 50):
        rec = []
        with mock.patch.object(bgrid_module.plt, 'hist', lambda v, n=None, **k: rec.append((np.array(v), n))), \
             mock.patch.object(bgrid_module.plt, 'plot', lambda x, y, **k: rec.append((np.array(x), np.array(y)))), \
             mock.patch.object(bgrid_module.plt, 'xlabel', lambda *a, **k: None), mock.patch.object(bgrid_module.plt, 'ylabel', lambda *a, **k: None), \
             mock.patch.object(bgrid_module.plt, 'title', lambda *a, **k: None):
            for name, exp in (('plot_density_histogram', den), ('plot_density_per_square_meter_histogram', dpm), ('plot_z_histogram', [st[dk] for _, st in cells]),
                              ('plot_vertical_uncertainty_histogram', [st.get('vertical_uncertainty') for _, st in cells]),
                              ('plot_horizontal_uncertainty_histogram', [st.get('horizontal_uncertainty') for _, st in cells])):
                if None in exp:
                    continue
                del rec[:]
                getattr(g, name)(bins)
                W.require(len(rec) == 1 and rec[0][1] == bins, '{} drew {}'.format(name, rec))
                same(exp, rec[0][0], name, tol)
            if spec.bs:
                continue
            for name, f in (('plot_density_vs_depth', 1), ('plot_density_per_square_meter_vs_depth', 2)):
                del rec[:]
                z = np.array([st[dk] for _, st in cells])
                d = np.array(den if f == 1 else dpm, dtype=float)
                getattr(g, name)(bins)
                W.require(len(rec) == 1, '{} drew {} graphs'.format(name, len(rec)))
                x, y = rec[0]
                edges = np.linspace(z.min() - 0.001, z.max() + 0.001, bins + 1)
                if bins > 1 and z.max() > z.min() and np.min(np.abs(edges[1:-1, None] - z)) < (z.max() - z.min()) * 1e-3 + 4e-3:
                    continue
                if z.max() == z.min() and bins > 1:
                    continue
                idx = np.digitize(z, edges)
                exp = [d[idx == i].mean() for i in sorted(set(idx))]
                W.require(len(y) == len(exp) and np.allclose(y, exp), '{} with {} bins shows {}, should be {}'.format(name, bins, y, exp))
                W.require(np.all(np.diff(x) > 0) and x[0] >= edges[0] - 1e-6 and x[-1] <= edges[-1] + 1e-6, '{} with {} bins: depths {}'.format(name, bins, x))
    part.checks += 1


def observed(g, spec):
    leaf = spec.tile if spec.kind == 'sr' else spec.sub
    return {r: W.obs_surface(g, r, spec.layers) for _, r in W.LOOKUP if r <= leaf}


def look(part, c, op, plots):
    g, m = c.grid, c.model
    if g.no_grid:
        W.require(not g.cell_count and not g.density_count and not g.density_per_square_meter and g.coverage_area_square_meters == 0 and not g.return_layer_names(), 'a grid without surface has statistics')
        return
    stats(part, g, c.spec, observed(g, c.spec), 1e-6, plots)
    if op[0] == 'grid' and ops.gridop(op)['clear']:
        stats(part, g, c.spec, W.expected(m, **c.last), W.TOL, plots)
    for name, layer in (('has_vertical_uncertainty', 'vertical_uncertainty'), ('has_horizontal_uncertainty', 'horizontal_uncertainty')):
        W.require(bool(getattr(g, name)) == (layer in c.spec.layers), '{} is {} for points with {}'.format(name, getattr(g, name), W.DTYPES[c.spec.dt]))
    # grids inside the grid have statistics of their own
    if c.spec.kind == 'vr':
        for t in g.tiles.flat:
            if t and not t.no_grid:
                stats(part, t, c.spec, observed(t, c.spec), 1e-6, False)


@task
def explore(part, spec, world, alpha, prefix, depth, disk, plots):
    ctx = ops.Ctx(W.Spec(**spec), world, disk)
    try:
        def chk(c, op, h, b):
            look(part, c, op, plots)
            if c.folder and op[0] in ('grid', 'rm') and c.model.held:
                keep = c.grid
                c.grid = load_grid(c.folder)
                try:
                    look(part, c, op, False)
                finally:
                    c.grid = keep
        ops.explore(part, ctx, prefix, alpha, depth, chk)
    finally:
        ctx.close()


def plan(run):
    t = run.thorough
    for kind in ('sr', 'vr'):
        world = 'overlap' if kind == 'sr' else 'bands'
        for backend in ('numpy', 'zarr'):
            for disk in (False, True):
                for dt, bs in (('f32', False), ('z', False), ('v', True), ('h', False), ('f32', True), ('f64', False)):
                    if not t and (dt, bs) != ('f32', False) and (disk or backend == 'zarr' or (kind == 'vr') != (dt in ('h', 'f64', 'v'))):
                        continue
                    names = ['A', 'B', 'C']
                    g = [['grid', 'mean', 1.0, 'full', None, True], ['grid', 'shoalest', None, 'full', 'depth', True], ['grid', 'mean', 0.5, 'full', None, False], ['grid', 'mean', 1.0, 'update', None, False]]
                    if not t and disk:
                        g = g[:2] + g[3:]
                    a = [['add', n] for n in names] + [['rm', n] for n in names] + g + ([['reload']] if disk and t else [])
                    for p in ops.prefixes(a, 2):
                        d = 2 if not t else 3
                        if not disk and backend == 'numpy' and dt == 'f32' and not bs:
                            d += 1
                        run.add(explore, spec=W.Spec(kind=kind, backend=backend, bs=bs, dt=dt, off='neg').json(), world=world, alpha=a, prefix=p, depth=d, disk=disk, plots=backend == 'numpy' and not disk and (t or bs or dt != 'f32'))
    # a cell with more points than sixteen bits count
    for kind, backend, disk in (('sr', 'numpy', False), ('vr', 'numpy', False), ('sr', 'zarr', True), ('vr', 'zarr', True)):
        if t or disk == (kind == 'vr'):
            run.add(explore, spec=W.Spec(kind=kind, backend=backend, off='utm').json(), world='crowd', disk=disk, plots=not disk, prefix=[['add', 'A'], ['grid', 'mean', 1.0, 'full', None, True]], depth=1 if not t else 2,
                    alpha=[['add', 'B'], ['rm', 'A'], ['grid', 'mean', 0.5, 'full', None, False], ['grid', 'shoalest', 1.0, 'full', None, True]])
    run.bound(operations=5 if not t else 6)
    run.assumptions = ['the square nautical mile is taken as within 0.2 % of 1852 m squared']
