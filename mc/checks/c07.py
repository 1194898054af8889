"""C07 storage backend and location do not change what a grid computes"""
import dask

from .. import ops
from .. import world as W
from ..core import task, Violation

LEVEL = 'model_checking'
RULE = ('every history over the alphabet up to the stated length is run in lock step on four real grids (numpy and zarr, in memory and on disk); after every operation their '
        'points, surfaces, layers, statistics and metadata are compared')

LANES = [('numpy', False), ('zarr', False), ('numpy', True), ('zarr', True)]
SKIP_META = ('name', 'storage_type')


class Four:
    def __init__(self, spec, world, lanes):
        self.lanes = []
        for backend, disk in lanes:
            self.lanes.append(ops.Ctx(W.Spec(**dict(spec.json(), backend=backend)), world, disk))
        self.spec, self.wname = spec, world
        self.folder = 'lanes'
        self.lanes_names = lanes

    def enabled(self, op):
        return self.lanes[0].enabled(op) if op[0] != 'reload' else bool(self.lanes[0].model.held)

    def do(self, op):
        for l in self.lanes:
            if op[0] != 'reload' or l.folder:
                l.do(op)

    def key(self):
        return tuple(l.key() for l in self.lanes)

    def snapshot(self):
        return [l.snapshot() for l in self.lanes]

    def restore(self, s):
        for l, x in zip(self.lanes, s):
            l.restore(x)

    def drop(self, s):
        for l, x in zip(self.lanes, s):
            l.drop(x)

    def close(self):
        for l in self.lanes:
            l.close()


def observe(c):
    g = c.grid
    s = W.snap(g, c.spec)
    for k in SKIP_META:
        s['meta'].pop(k, None)
    x = {'layers': list(g.layer_names), 'cells': {float(k): v for k, v in g.cell_count.items()}, 'density': sorted(g.density_count),
         'area': g.coverage_area_square_meters, 'no_grid': g.no_grid, 'changed': g.point_count_changed, 'count': g.points_count}
    if not g.is_empty:
        a = dict(g.return_attribution())
        for k in ('grid_folder', 'type', 'name', 'storage_type'):
            a.pop(k)
        for k in list(a):
            if k.startswith('source_'):
                a[k] = a[k]['multibeam_lines']
        x['attribution'] = {k: W.norm(v) for k, v in a.items()}
        x['vertical'] = g.has_vertical_uncertainty
        x['horizontal'] = g.has_horizontal_uncertainty
    return s, x


def compare(four):
    ref = None
    for (backend, disk), c in zip(four.lanes_names, four.lanes):
        o = observe(c)
        if ref is None:
            ref = o
            continue
        nm = ('numpy in memory', '{} {}'.format(backend, 'on disk' if disk else 'in memory'))
        d = W.diff_snap(ref[0], o[0], names=nm)
        if d:
            raise Violation(d)
        for k in ref[1]:
            W.require(ref[1][k] == o[1].get(k), '{}: {} {}, {} {}'.format(k, nm[0], ref[1][k], nm[1], o[1].get(k)))
    return ref


@task
def explore(part, spec, world, lanes, alpha, prefix, depth, chunk=None):
    sp = W.Spec(**spec)
    with dask.config.set({'array.chunk-size': chunk} if chunk else {}):
        four = Four(sp, world, [tuple(l) for l in lanes])
        try:
            def chk(c, op, h, b):
                part.checks += len(c.lanes) - 1
                part.outcome(repr(compare(c)))
            ops.explore(part, four, prefix, alpha, depth, chk)
        finally:
            four.close()


def plan(run):
    t = run.thorough
    from .c03 import alphabet, S1C
    from .c04 import pair
    for kind in ('sr', 'vr'):
        for chunk in (None, '64B'):
            if kind == 'vr' and chunk and not t:
                continue
            g = pair('mean', None, 'depth') if kind == 'vr' else pair('mean', 1.0) + [S1C]
            a = alphabet('AB' if not t else 'ABC', g, t)
            for pre in ops.prefixes(a, 2):
                run.add(explore, spec=W.Spec(kind=kind, off='utm').json(), world='bands' if kind == 'vr' else 'overlap', lanes=LANES, alpha=a, prefix=pre, depth=3 if t else 2, chunk=chunk)
        # the two backends in memory, deeper
        a = alphabet('ABC', pair('mean', None, 'depth') + pair('mean', 1.0) if kind == 'vr' else pair('mean', 1.0) + [S1C])
        for pre in ops.prefixes(a, 2):
            run.add(explore, spec=W.Spec(kind=kind, off='neg').json(), world='bands' if kind == 'vr' else 'overlap', lanes=LANES[:2], alpha=a, prefix=pre, depth=5 if t else 3)
        for world, tile, sub, off in (('wide', 4.0, 2.0 if kind == 'sr' else 1.0, 'zero'), ('fine', 1 / 16, 1 / 32, 'utm')):
            a = alphabet('AB' if not t else 'ABC', pair('mean', 1 / 64 if world == 'fine' else 1.0), True)
            for pre in ops.prefixes(a, 2):
                run.add(explore, spec=W.Spec(kind=kind, tile=tile, sub=sub, off=off).json(), world=world, lanes=LANES, alpha=a, prefix=pre, depth=3 if t else 1)
    run.bound(lanes=4, operations_four_lanes=5 if t else 4, operations_in_memory=7 if t else 5)
    run.assumptions = ['the name of the root folder and of the storage type differ by design']
