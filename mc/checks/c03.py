"""C03 the surface depends only on the data present"""
from .. import ops
from .. import world as W
from ..core import task, Violation

LEVEL = 'model_checking'
RULE = ('every history over the alphabet up to the stated length on real grids; after every full gridding the grid is compared with the reference model and with a grid '
        'freshly built from the same containers; after every operation its points and mean depth')


def check(ctx, op, history, before):
    g, m = ctx.grid, ctx.model
    md = m.mean_depth()
    W.require(abs(float(g.mean_depth) - md) < 1.1e-3 + 1e-6 * abs(md), 'mean_depth is {}, should be {}'.format(g.mean_depth, md))
    exp = W.exp_points(m)
    got = W.obs_points(g)
    W.require(exp == got, 'points are {}, should be {}'.format(got, exp))
    if op[0] == 'grid':
        o = ops.gridop(op)
        W.check_surface(g, m, o['alg'], o['res'], o['auto'], 'gridded {}'.format(op[1:]), ctx.returned)
        f = W.fresh_snap(ctx.spec, ctx.wname, list(m.held), o['alg'], o['res'], o['auto'])
        s = W.snap(g, ctx.spec)
        d = W.diff_snap(f, s, what=('points', 'surface'), names=('freshly built', 'here'))
        if d:
            raise Violation(d)
        for k in ('resolutions', 'mean_depth', 'grid_algorithm', 'grid_resolution', 'number_of_tiles', 'epsg', 'vertical_reference'):
            W.require(f['meta'][k] == s['meta'][k], '{}: freshly built {}, here {}'.format(k, f['meta'][k], s['meta'][k]))
        W.require(sorted(x for x in g.layer_names) == f['layers'], 'layers: freshly built {}, here {}'.format(f['layers'], g.layer_names))


@task
def explore(part, spec, world, disk, alpha, prefix, depth):
    sp = W.Spec(**spec)
    ctx = ops.Ctx(sp, world, disk)
    try:
        def chk(c, op, h, b):
            part.checks += 1
            check(c, op, h, b)
            part.outcome(W.state_digest(c.grid))
        ops.explore(part, ctx, prefix, alpha, depth, chk)
    finally:
        ctx.close()


def alphabet(cs, grids, reload=False):
    a = [['add', c] for c in cs] + [['rm', c] for c in cs] + [list(g) for g in grids]
    if reload:
        a.append(['reload'])
    return a


M1 = ['grid', 'mean', 1.0, 'full', None, False]
M1C = ['grid', 'mean', 1.0, 'full', None, True]
M2 = ['grid', 'mean', 2.0, 'full', None, False]
S1C = ['grid', 'shoalest', 1.0, 'full', None, True]
AUTO = ['grid', 'mean', None, 'full', 'depth', True]
DENS = ['grid', 'mean', None, 'full', 'density', True]


def plan(run):
    t = run.thorough
    mem = 5 if t else 3
    for kind in ('sr', 'vr'):
        for off, world, cs, grids in (('utm', 'overlap', 'ABC', [M1, M2, S1C]), ('zero', 'nogrow', 'ABD', [M1, M2]), ('neg', 'bands', 'ABC', [AUTO, M1C])):
            a = alphabet(cs, grids)
            for pre in ops.prefixes(a, 2):
                run.add(explore, spec=W.Spec(kind=kind, off=off).json(), world=world, disk=False, alpha=a, prefix=pre, depth=mem)
    for kind, tile, sub, world, off in (('sr', 4.0, 2.0, 'wide', 'zero'), ('vr', 4.0, 1.0, 'wide', 'zero'), ('vr', 16.0, 2.0, 'wide', 'zero'), ('sr', 1 / 16, 1 / 32, 'fine', 'utm'), ('vr', 1 / 16, 1 / 32, 'fine', 'utm')):
        for disk, backend in ((False, 'numpy'), (True, 'numpy'), (True, 'zarr')):
            if world == 'fine' and disk:
                continue
            a = alphabet('ABC', [M1, S1C] if world != 'fine' else [['grid', 'mean', 1 / 64, 'full', None, False], ['grid', 'shoalest', 1 / 32, 'full', None, True]], disk)
            for pre in ops.prefixes(a, 2):
                if disk and pre[1][0] != 'grid' and not t:
                    continue
                run.add(explore, spec=W.Spec(kind=kind, backend=backend, tile=tile, sub=sub, off=off).json(), world=world, disk=disk, alpha=a, prefix=pre, depth=2 if t or not disk else 1)
    for backend in ('numpy', 'zarr'):
        for kind in ('sr', 'vr'):
            a = alphabet('ABC' if t else 'AB', [AUTO if kind == 'vr' else M1] + ([S1C] if t else []), True)
            for pre in ops.prefixes(a, 3):
                run.add(explore, spec=W.Spec(kind=kind, off='utm', backend=backend).json(), world='bands' if kind == 'vr' else 'overlap', disk=True, alpha=a, prefix=pre, depth=2 if t else 1)
    run.bound(operations_in_memory=2 + mem, operations_on_disk=5 if t else 4)
    run.assumptions = ['griddings with an automatic resolution clear earlier resolutions (clear_existing), griddings with a given resolution need not']
