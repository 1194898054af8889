"""C05 a grid on disk can be reloaded at any operation boundary without loss"""
import dask

from .. import ops
from .. import world as W
from ..core import task, Violation
from bathygrid.convenience import load_grid, is_bathygrid

LEVEL = 'model_checking'
RULE = ('every history over the alphabet (including stop-and-reload as an operation) up to the stated length on real grids on disk; after every operation the folder is loaded '
        'by a second reader and compared with the live grid and with a grid in memory that went through the same history without ever being stored')


def attribution(g):
    a = dict(g.return_attribution())
    for k in ('grid_folder', 'type', 'storage_type', 'name'):
        a.pop(k)
    for k in list(a):
        if k.startswith('source_'):
            a[k] = a[k]['multibeam_lines']
    return {k: W.norm(v) for k, v in a.items()}


def compare(ctx, twin, op):
    g = ctx.grid
    live = W.snap(g, ctx.spec)
    if not ctx.model.held and not ctx.ever:
        return live
    W.require(is_bathygrid(ctx.folder), 'is_bathygrid is False for {}'.format(op))
    other = load_grid(ctx.folder)
    W.require(type(other) is type(g), 'type {} loaded as {}'.format(type(g), type(other)))
    d = W.diff_snap(live, W.snap(other, ctx.spec), names=('live', 'loaded'))
    if d:
        raise Violation(d)
    W.require(dict(g.container_timestamp) == dict(other.container_timestamp), 'container_timestamp: live {} loaded {}'.format(g.container_timestamp, other.container_timestamp))
    if ctx.model.held:
        a, b = attribution(g), attribution(other)
        W.require(a == b, 'attribution: live {} loaded {}'.format(a, b))
    W.require(g.no_grid == other.no_grid, 'no_grid: live {} loaded {}'.format(g.no_grid, other.no_grid))
    W.require(list(g.layer_names) == list(other.layer_names), 'layer_names: live {} loaded {}'.format(g.layer_names, other.layer_names))
    W.require(g.point_count_changed == other.point_count_changed, 'point_count_changed: live {} loaded {}'.format(g.point_count_changed, other.point_count_changed))
    # and neither differs from a grid that has never seen a disk
    d = W.diff_snap(W.snap(twin.grid, ctx.spec), live, names=('in memory', 'on disk'))
    if d:
        raise Violation(d)
    W.check_placement(other, ctx.model)
    return live


class Pair(ops.Ctx):
    """the grid on disk together with its twin in memory"""

    def __init__(self, spec, world):
        super().__init__(spec, world, True)
        self.twin = ops.Ctx(spec, world, False)
        self.ever = False

    def do(self, op):
        super().do(op)
        self.ever = True
        if op[0] != 'reload':
            self.twin.do(op)

    def snapshot(self):
        return super().snapshot(), self.twin.snapshot(), self.ever

    def restore(self, s):
        super().restore(s[0])
        self.twin.restore(s[1])
        self.ever = s[2]

    def drop(self, s):
        super().drop(s[0])


@task
def explore(part, spec, world, alpha, prefix, depth, chunk=None):
    sp = W.Spec(**spec)
    with dask.config.set({'array.chunk-size': chunk} if chunk else {}):
        ctx = Pair(sp, world)
        try:
            def chk(c, op, h, b):
                part.checks += 1
                s = compare(c, c.twin, op)
                part.outcome(repr(s))
            ops.explore(part, ctx, prefix, alpha, depth, chk)
        finally:
            ctx.close()


def plan(run):
    t = run.thorough
    from .c03 import alphabet
    from .c04 import pair
    for backend in ('numpy', 'zarr'):
        for kind in ('sr', 'vr'):
            for chunk in (None, '64B') if (t or kind == 'sr') else ('64B',):
                g = pair('mean', None, 'depth') if kind == 'vr' else pair('shoalest', 1.0)
                if t:
                    g.append(['grid', 'mean', 2.0, 'full', None, True])
                a = alphabet('AB' if not t else 'ABC', g, True)
                for pre in ops.prefixes(a, 2):
                    if pre[1][0] == 'reload' and not t:
                        continue
                    run.add(explore, spec=W.Spec(kind=kind, off='utm', backend=backend).json(), world='bands' if kind == 'vr' else 'overlap', alpha=a, prefix=pre, depth=(3 if backend == 'numpy' else 2) if not t else 4, chunk=chunk)
        for kind, tile, sub, world, off in (('sr', 4.0, 2.0, 'wide', 'zero'), ('vr', 4.0, 1.0, 'wide', 'zero'), ('sr', 1 / 16, 1 / 32, 'fine', 'utm'), ('vr', 1 / 16, 1 / 32, 'fine', 'utm')):
            a = alphabet('ABC' if t else 'AB', pair('mean', 1 / 64 if world == 'fine' else 1.0), True)
            for pre in ops.prefixes(a, 2):
                if pre[1][0] == 'reload' and not t:
                    continue
                run.add(explore, spec=W.Spec(kind=kind, backend=backend, tile=tile, sub=sub, off=off).json(), world=world, alpha=a, prefix=pre, depth=3 if t else 1)
    run.bound(operations=6 if t else {'numpy': 5, 'zarr': 4}, chunk_sizes=['default', '64 bytes'])
    run.assumptions = ['a process ends only between operations', 'a grid without any operation has nothing on disk']
