"""C01 points are conserved, unaltered, in the right tile"""
from .. import ops
from .. import world as W
from ..core import task

LEVEL = 'model_checking'
RULE = ('every history over the alphabet up to the stated length is executed on real grids; after every operation all tiles are compared with '
        'the reference model (container -> points); histories that differ in any operation or parameter are distinct')


def check(ctx, op, history, before):
    W.check_placement(ctx.grid, ctx.model)


def alphabet(cs, grids, reload=False):
    a = [['add', c] for c in cs] + [['rm', c] for c in cs] + [list(g) for g in grids]
    if reload:
        a.append(['reload'])
    return a


@task
def explore(part, spec, world, disk, alpha, prefix, depth):
    sp = W.Spec(**spec)
    ctx = ops.Ctx(sp, world, disk)
    try:
        def chk(c, op, h, b):
            part.checks += 1
            check(c, op, h, b)
            part.outcome(repr(sorted(W.obs_points(c.grid).items())))
        ops.explore(part, ctx, prefix, alpha, depth, chk)
    finally:
        ctx.close()


def plan(run):
    t = run.thorough
    g1 = ['grid', 'mean', 1.0, 'full']
    gu = ['grid', 'mean', 1.0, 'update']
    ga = ['grid', 'mean', None, 'full', 'depth']
    mem, dsk = (6, 3) if t else (4, 1)
    for off in ('zero', 'utm') + (('neg', 'south') if t else ()):
        for kind in ('sr', 'vr'):
            for world, cs in (('overlap', 'ABC'), ('overlap', 'ABD'), ('nogrow', 'ABC')):
                a = alphabet(cs, [g1, gu])
                for pre in ops.prefixes(a, 2):
                    run.add(explore, spec=W.Spec(kind=kind, off=off, dt='f64' if world == 'nogrow' else 'f32').json(), world=world, disk=False, alpha=a, prefix=pre, depth=mem)
    for kind, tile, sub, world, off in (('sr', 4.0, 2.0, 'wide', 'zero'), ('vr', 4.0, 1.0, 'wide', 'zero'), ('vr', 16.0, 2.0, 'wide', 'zero'), ('sr', 1 / 16, 1 / 32, 'fine', 'utm'), ('vr', 1 / 16, 1 / 32, 'fine', 'utm')):
        for disk, backend in ((False, 'numpy'), (True, 'numpy'), (True, 'zarr')):
            if world == 'fine' and disk:
                continue
            a = alphabet('ABC', [g1, gu] if world != 'fine' else [['grid', 'mean', 1 / 64, 'full'], ['grid', 'mean', 1 / 32, 'update']], disk)
            for pre in ops.prefixes(a, 2):
                if disk and pre[1][0] == 'reload' and not t:
                    continue
                run.add(explore, spec=W.Spec(kind=kind, backend=backend, tile=tile, sub=sub, off=off).json(), world=world, disk=disk, alpha=a, prefix=pre, depth=(3 if t else 2) if not disk else (2 if t else 1))
    for backend in ('numpy', 'zarr'):
        for kind in ('sr', 'vr'):
            for off in ('zero', 'utm') if t else ('utm',):
                cs = 'ABC' if t else 'AB'
                a = alphabet(cs, [ga if kind == 'vr' else g1], True)
                for pre in ops.prefixes(a, 3 if not t else 2):
                    run.add(explore, spec=W.Spec(kind=kind, off=off, backend=backend).json(), world='overlap', disk=True, alpha=a, prefix=pre, depth=dsk)
    for kind in ('sr', 'vr'):
        for cs in (('l', 'l1', 'l10'), ('l', 'L', '0l'), ('0l', 'l', '10 l/\u00fc_1.all'), ('l', 'l__0', 'l__1'), ('__l', 'l_', 'l')):
            for disk, backend in ((False, 'numpy'), (True, 'zarr'), (True, 'numpy')):
                a = alphabet(cs, [g1], disk)
                for pre in ops.prefixes(a, 2):
                    if pre[1][0] == 'add' or t:
                        run.add(explore, spec=W.Spec(kind=kind, backend=backend).json(), world='names', disk=disk, alpha=a, prefix=pre, depth=(2 if not disk else 1) + 2 * t)
        cs = list(W.MANY)
        for disk, backend in ((False, 'numpy'), (True, 'zarr'), (True, 'numpy')):
            for order in (cs, cs[::-1]):
                run.add(explore, spec=W.Spec(kind=kind, backend=backend).json(), world='many', disk=disk, alpha=[['rm', c] for c in cs[::1 if t or not disk else 4]] + [['add', c] for c in cs[::4]] + [g1] + ([['reload']] if disk else []),
                        prefix=[['add', c] for c in order], depth=(2 if not disk else 1) + t)
        for disk, backend in ((False, 'numpy'), (True, 'zarr')):
            run.add(explore, spec=W.Spec(kind=kind, backend=backend).json(), world='crowd', disk=disk, alpha=alphabet('AB', [], disk), prefix=[['add', 'B'], ['add', 'A']], depth=1 + t)
    run.bound(operations_in_memory=2 + mem, operations_on_disk=(2 if t else 3) + dsk, containers_in_memory=3, grid_types=['sr', 'vr'], backends=['numpy', 'zarr'],
              offsets=['zero', 'utm'] + (['neg', 'south'] if t else []))
    run.assumptions = ['points have finite coordinates; all containers of a grid carry the same fields', 'histories longer than the bound behave like shorter ones (small scope)']
