"""C14 a rejected request leaves the grid and the disk as they were"""
import importlib.util
import itertools
import os

import dask.array as da
import numpy as np
import xarray as xr

from .. import env
from .. import ops
from .. import world as W
from ..core import task, guarded, full, Violation
from bathygrid.convenience import create_grid, load_grid

LEVEL = 'fault_enumeration'
RULE = ('every refused request in every state reached by all histories up to the stated length; memory and every file on disk compared before and after, then a valid operation is performed and '
        'compared with a grid that never saw the refused request')


def fields(drop=None, n=2, dt=np.float64):
    a = np.zeros(n, dtype=[(k, dt) for k in ('x', 'y', 'z', 'tvu', 'thu') if k != drop])
    for i, k in enumerate(a.dtype.names):
        a[k] = np.arange(n) + 1 + 0.5 * i
    return a


def dataset(drop=None, n=2):
    a = fields(None, n)
    return xr.Dataset({k: ('sounding', a[k]) for k in a.dtype.names if k != drop})


def far(n=2):
    a = fields(None, n)
    a['x'] += 400.0
    return a


GOOD = dict(crs=26917, vertical_reference='waterline', min_time=1000.5, max_time=4000000000.0)   # earlier and later than all others


def add(data, name='new', **kw):
    def f(g):
        d = data()
        g.add_points(d, name, ['file_new'], **dict(GOOD, **kw))
    return f


BAD_ADD = {
    'missing x': add(lambda: fields('x')), 'missing y': add(lambda: fields('y')), 'missing z': add(lambda: fields('z')),
    'no points': add(lambda: fields(None, 0)), 'plain array': add(lambda: np.zeros((4, 3))), 'list of tuples': add(lambda: [(1., 1., 1.)]), 'dict': add(lambda: {'x': np.zeros(2), 'y': np.zeros(2), 'z': np.zeros(2)}),
    'None': add(lambda: None), 'text': add(lambda: 'points.csv'),
    'dataset without x': add(lambda: dataset('x')), 'dataset without y': add(lambda: dataset('y')), 'dataset without z': add(lambda: dataset('z')), 'dataset without points': add(lambda: dataset(None, 0)),
    'dataset with two dimensions': add(lambda: xr.Dataset({k: (('ping', 'beam'), np.ones((2, 2))) for k in 'xyz'})),
    'dask array without z': add(lambda: da.from_array(fields('z'), chunks=1)), 'dask array without fields': add(lambda: da.zeros((3, 2))),
    'far away without z': add(lambda: np.array(far()[['x', 'y']])),
}
OTHER = {
    'other coordinate system': add(far, crs=26918), 'other vertical reference': add(far, vertical_reference='ellipse'),
    'other coordinate system and no z': add(lambda: fields('z'), crs=26918), 'other of both': add(far, crs=32618, vertical_reference='MLLW'),
}


def taken(name):
    return {'name present {}'.format(name): add(far, name=name), 'name present {} same tile'.format(name): add(fields, name=name), 'name present {} without points'.format(name): add(lambda: fields(None, 0), name=name)}


def gr(*a, **kw):
    return lambda g: g.grid(*a, **kw)


def bad_grid(spec, last):
    out = {}
    big = spec.tile * 2
    for clear in (False, True):
        for opt in ('full', 'update'):
            k = dict(clear_existing=clear, regrid_option=opt)
            sfx = ' clear {} {}'.format(clear, opt)
            alg = last['alg'] if last and not clear else 'mean'
            for r in (3.0, 0.3, 1.5, 0.0, -1.0, big, 12, float('nan')):
                out['resolution {}'.format(r) + sfx] = gr(alg, r, **k)
            out['resolution mode' + sfx] = gr(alg, None, auto_resolution_mode='soundings', **k)
            out['no such method' + sfx] = gr('median', 1.0, **k)
            out['no such method, automatic' + sfx] = gr('median', None, **k)
    if importlib.util.find_spec('bathycube') is None:
        out['method without its engine'] = gr('cube', 1.0, clear_existing=True)
        out['method without its engine, automatic'] = gr('cube', None, clear_existing=True)
    if last:
        o = 'shoalest' if last['alg'] == 'mean' else 'mean'
        for res in (1.0, None, 2.0):
            for opt in ('full', 'update'):
                out['other method at {} {}'.format(res, opt)] = gr(o, res, regrid_option=opt)
    return out


def no_points():
    return {'gridding without points': gr('mean', 1.0), 'gridding without points, automatic': gr('mean', None), 'gridding without points, density': gr('shoalest', None, auto_resolution_mode='density'),
            'gridding without points, clear': gr('mean', 2.0, clear_existing=True), 'updating without points': gr('mean', 1.0, regrid_option='update')}


def absent():
    """allowed, without effect"""
    return {'remove an absent container': lambda g: g.remove_points('nowhere'), 'remove None': lambda g: g.remove_points(None, progress_bar=False),
            'remove no name': lambda g: g.remove_points('')}


def exports(spec, d):
    out = {'export format': lambda g: g.export(os.path.join(d, 'x.las'), 'las')}
    if spec.bs:
        out['bag of backscatter'] = lambda g: g.export(os.path.join(d, 'x.bag'), 'bag')
    return out


def state(g):
    keep, g.data = g.data, None
    try:
        return W.state_digest(g)
    finally:
        g.data = keep


def both(ctx):
    return state(ctx.grid), W.tree_digest(ctx.base) if ctx.folder else b''


def refused(part, ctx, name, fn, must_raise=True):
    a, t = ctx.known or both(ctx)
    ctx.known = None
    err = None
    try:
        fn(ctx.grid)
    except Exception as e:
        err = e
    part.transitions += 1
    part.checks += 1
    W.require(err is not None or not must_raise, '{}: no error was raised'.format(name))
    W.require(err is None or must_raise, '{}: raised {!r}'.format(name, err))
    W.require(state(ctx.grid) == a, '{}: the grid in memory changed: {}'.format(name, W.meta(ctx.grid)))
    if ctx.folder:
        W.require(W.tree_digest(ctx.base) == t, '{}: the grid on disk changed'.format(name))
    ctx.known = (a, t)
    part.outcome((name.split(' clear')[0], type(err).__name__))


def requests(ctx):
    out = dict(BAD_ADD)
    m = ctx.model.held
    if m:
        out.update(OTHER)
        for n in sorted(m):
            out.update(taken(n))
        out.update(bad_grid(ctx.spec, ctx.last))
    else:
        out.update(no_points())
    if ctx.last and m:
        out.update(exports(ctx.spec, ctx.base or '/nonexistent'))
    return out


def follow_up(ctx):
    """something valid after the refusals; returns what it leads to"""
    g = ctx.grid
    name = 'later'
    g.add_points(ctx.spec.pts(W.rows((0.25, 1.25, 14.), (6.5, 2.5, 19.), seed=5)), name, ['f'], 26917, 'waterline')
    if ctx.last:
        g.grid(ctx.last['alg'], ctx.last['res'], regrid_option='update')
    g.grid(ctx.last['alg'] if ctx.last else 'mean', 1.0)
    for c in sorted(ctx.model.held)[:1]:
        g.remove_points(c)
    s = W.snap(g, ctx.spec)
    if ctx.folder:
        s2 = W.snap(load_grid(ctx.folder), ctx.spec)
        d = W.diff_snap(s, s2, names=('live', 'loaded'))
        W.require(d is None, 'after the refused requests: {}'.format(d))
    return s


def one(part, spec, world, disk, history, seen):
    ctx = ops.Ctx(spec, world, disk)
    try:
        for op in history:
            if not ctx.enabled(op):
                return
            ctx.do(op)
        if ctx.key() in seen:
            return
        seen.add(ctx.key())
        part.state((ctx.key(), disk))
        s0 = ctx.snapshot()
        ref = follow_up(ctx)
        ctx.restore(s0)
        ctx.known = None
        for name, fn in sorted(requests(ctx).items()):
            case = {'spec': spec.json(), 'world': world, 'disk': disk, 'history': history, 'request': name}
            if not guarded(part, case, refused, part, ctx, name, fn):
                ctx.restore(s0)
                ctx.known = None
            if full(part):
                return
        for name, fn in absent().items():
            refused(part, ctx, name, fn, must_raise=False)
        got = follow_up(ctx)
        d = W.diff_snap(ref, got, names=('without refused requests', 'with'))
        W.require(d is None, d)
        ctx.drop(s0)
    finally:
        ctx.close()


@task
def histories(part, spec, world, disk, alphabet, prefix, depth):
    sp = W.Spec(**spec)
    seen = set()
    for n in range(depth + 1):
        for tail in itertools.product(alphabet, repeat=n):
            h = prefix + list(tail)
            case = {'spec': spec, 'world': world, 'disk': disk, 'history': h}
            part.sample(case)
            guarded(part, case, one, part, sp, world, disk, h, seen)
            part.executions += 1
            if full(part):
                return


@task
def creation(part):
    """invalid options: an error and nothing on disk"""
    bad = [dict(grid_type='quadtree'), dict(grid_type=''), dict(grid_type='Single_Resolution'), dict(grid_backend='hdf5'), dict(grid_backend=''), dict(tile_size=3.0), dict(tile_size=0), dict(tile_size=-4.0), dict(tile_size=1000),
           dict(tile_size=0.3), dict(grid_type='variable_resolution_tile', subtile_size=3.0), dict(grid_type='variable_resolution_tile', subtile_size=0), dict(grid_type='variable_resolution_tile', subtile_size=-2),
           dict(grid_type='variable_resolution_tile', tile_size=12.0, subtile_size=4.0)]
    for b, other in itertools.product(bad, [dict(), dict(grid_backend='numpy'), dict(grid_type='variable_resolution_tile'), dict(is_backscatter=True)]):
        opt = dict(other, **b)
        for where in ('', 'new', 'a/b/new', 'empty', 'full'):
            with env.scratch() as d:
                os.makedirs(os.path.join(d, 'empty'))
                os.makedirs(os.path.join(d, 'full'))
                with open(os.path.join(d, 'full', 'x'), 'w') as f:
                    f.write('keep')
                t = W.tree_digest(d)
                cwd = os.getcwd()
                here = os.listdir(cwd)
                case = {'options': opt, 'folder': where}
                part.sample(case)
                part.state(repr(case))

                def run():
                    try:
                        create_grid(folder_path=os.path.join(d, where) if where else '', **opt)
                    except ValueError:
                        pass
                    else:
                        raise Violation('create_grid accepted {}'.format(opt))
                    W.require(W.tree_digest(d) == t, 'create_grid refused {} and left something on disk'.format(opt))
                    W.require(os.listdir(cwd) == here, 'create_grid refused {} and wrote to the working directory'.format(opt))
                guarded(part, case, run)
                part.executions += 1
                part.checks += 1
                if full(part):
                    return


CRS = [None, 26917, '26917', 26918, '32618']
VREF = ['waterline', 'ellipse', 'NOAA MLLW', 'VERTCRS["NOAA_MLLW_region_b",depth,down]', None, '']


@task
def references(part, spec, disk, what, first):
    """every sequence of additions with these coordinate systems and vertical references: taken exactly if they agree with what the grid has"""
    sp = W.Spec(**spec)
    pool = {'crs': [(c, 'waterline') for c in CRS], 'vref': [(26917, v) for v in VREF], 'both': [(c, v) for c in CRS for v in VREF]}[what]
    names = list(W.MANY)

    def run(seq):
        with env.scratch() as d:
            g = sp.create(os.path.join(d, 'g') if disk else '')
            epsg, vref, held = None, None, 0
            for i, (crs, v) in enumerate(seq):
                # references relative to MLLW count as the same, whatever the region
                ok = (not epsg or not crs or epsg == int(crs)) and (not vref or vref == v or bool(v and 'MLLW' in v and 'MLLW' in vref))
                before = state(g), W.tree_digest(d)
                try:
                    g.add_points(sp.pts(W.MANY[names[i]]), names[i], ['f'], crs, v, progress_bar=False)
                    err = None
                except ValueError as e:
                    err = e
                part.transitions += 1
                part.checks += 1
                W.require((err is None) == ok, '{} after {}: {}'.format((crs, v), seq[:i], 'accepted' if err is None else 'refused: {}'.format(err)))
                if err is not None:
                    W.require((state(g), W.tree_digest(d)) == before, '{} after {}: refused, but the grid is changed'.format((crs, v), seq[:i]))
                    continue
                held += 1
                epsg = int(crs) if crs else epsg
                W.require(g.points_count == sum(len(W.MANY[n]) for n in g.container) and len(g.container) == held, 'points or containers are missing')
                for x in [g] + ([load_grid(os.path.join(d, 'g'))] if disk else []):
                    W.require((x.epsg or None) == epsg, 'coordinate system {!r}, should be {}'.format(x.epsg, epsg))
                    W.require((x.vertical_reference or None) in ({v or None} | ({vref} if vref and v and 'MLLW' in v else set())), 'vertical reference {!r}, should be {!r}'.format(x.vertical_reference, v))
                vref = g.vertical_reference or None
    for seq in itertools.product(pool, repeat=2 if what == 'both' else 3):
        if seq[0] != pool[first]:
            continue
        case = {'spec': spec, 'disk': disk, 'sequence': seq}
        part.sample(case)
        part.state(repr(case))
        guarded(part, case, run, seq)
        part.executions += 1
        if full(part):
            return


def plan(run):
    t = run.thorough
    for kind, backend, disk in (('sr', 'numpy', False), ('vr', 'zarr', True)):
        for what, n in (('crs', len(CRS)), ('vref', len(VREF)), ('both', len(CRS) * len(VREF))):
            for i in range(n):
                if what != 'both' or not disk or t:
                    run.add(references, spec=W.Spec(kind=kind, backend=backend).json(), disk=disk, what=what, first=i)
    a = [['add', 'A'], ['add', 'B'], ['rm', 'A'], ['grid', 'mean', 1.0, 'full', None], ['grid', 'shoalest', None, 'full', 'depth', True], ['grid', 'mean', 1.0, 'update', None]]
    run.add(creation)
    n = 0
    for kind in ('sr', 'vr'):
        for backend in ('numpy', 'zarr'):
            for disk in (False, True):
                for bs in (False, True) if (kind, backend, disk) in (('sr', 'numpy', True), ('vr', 'zarr', False)) else (False,):
                    sp = W.Spec(kind=kind, backend=backend, bs=bs).json()
                    world = 'bands' if kind == 'vr' else 'overlap'
                    run.add(histories, spec=sp, world=world, disk=disk, alphabet=a, prefix=[], depth=1)
                    for p in ops.prefixes(a, 2):
                        run.add(histories, spec=sp, world=world, disk=disk, alphabet=a, prefix=p, depth=(0 if disk and kind == 'vr' else 1) if not t else 3)
    run.bound(operations_before=3 if not t else 5, requests=len(BAD_ADD) + len(OTHER) + 3 + 44 + 5 + 3)
