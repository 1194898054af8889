"""C15 metadata always describes the data that is in the grid"""
import calendar
import os
import time

import numpy as np

from .. import ops
from .. import world as W
from ..core import task, guarded, Violation
from bathygrid.bgrid import BathyGrid
from bathygrid.convenience import load_grid

LEVEL = 'model_checking'
RULE = ('every history of adds with different metadata, removals, griddings and reloads up to the stated length, in several local time zones; after every operation all metadata, '
        'the attribution report and the printed summary are compared with what the additions said')

T0 = 1600000000
ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'XXX-13', 'YYY+11:30']

# container -> (points from the world, files, min time, max time)
META = {
    'overlap': {'A': ('A', ['a1.all', 'a2.all'], T0 + 5000, T0 + 9000), 'em2040_1': ('B', ['C:\\\\data\\\\b1, "x" [2] \u00e9.all', '/a/b/c d.all', ' b1.all'], T0 + 100.75, T0 + 6000.25), 'em2040_0': ('C', None, None, T0 + 99999),
                'em2040': ('D', ['d1.all', 'd2.all', 'd3.all'], T0 - 777, None)},
    'bands': {'A': ('A', ['a1.all', 'a2.all'], T0 + 5000, T0 + 9000), 'em2040__1': ('B', ['C:\\\\data\\\\b1, "x" [2] \u00e9.all', '/a/b/c d.all', ' b1.all'], T0 + 15552000, T0 + 15552100), 'em2040__0': ('C', None, None, None)},
}


def stamp(t):
    return time.strftime('%Y-%m-%dT%H:%M:%S', time.gmtime(int(t)))


class Ctx(ops.Ctx):
    def __init__(self, *a, vref='waterline', zone='UTC', **kw):
        self.zone = zone
        super().__init__(*a, **kw)
        self.vref = vref
        self.times = (None, None)
        self.added_at = {}

    def pts(self, name):
        return self.spec.pts(self.world[META[self.wname][name][0]])

    def do(self, op):
        if op[0] != 'add':
            return super().do(op)
        _, files, lo, hi = META[self.wname][op[1]]
        kw = {k: v for k, v in (('min_time', lo), ('max_time', hi)) if v is not None}
        given = list(files) if files else None
        arr = self.pts(op[1])
        t0 = int(time.time())
        first = self.times == (None, None) and not self.model.held and not self.added_at
        # the coordinate system is given with the first addition and need not be repeated
        self.grid.add_points(arr, op[1], given, 26917 if first or op[1] == 'A' else None, self.vref, progress_bar=False, **kw)
        t1 = int(time.time())
        W.require(given == (list(files) if files else None), 'add_points changed the file list it was given')
        if given:
            given.append('changed later')
        a, b = self.times
        self.times = (a if lo is None else int(lo) if a is None else min(a, int(lo)), b if hi is None else int(hi) if b is None else max(b, int(hi)))
        self.model.add(op[1], self.pts(op[1]))
        self.added_at[op[1]] = (t0, t1)
        self._touch(arr)
        self.fresh = False

    def snapshot(self):
        return super().snapshot(), self.times, dict(self.added_at)

    def restore(self, s):
        super().restore(s[0])
        self.times, self.added_at = s[1], dict(s[2])

    def drop(self, s):
        super().drop(s[0])

    def key(self):
        return super().key() + (self.times,)


def look(part, c, op):
    g, m = c.grid, c.model
    part.checks += 1
    files = {n: (META[c.wname][n][1] or ['Unknown']) for n in m.held}
    W.require({k: list(v) for k, v in g.container.items()} == files, 'containers {}, should be {}'.format(dict(g.container), files))
    W.require(sorted(g.return_unique_containers()) == sorted(m.held), 'return_unique_containers {}'.format(g.return_unique_containers()))
    heads = sorted({n.split('__')[0] for n in m.held})   # chunks of one container are named container__line
    W.require(sorted(g.unique_container_entries) == heads, 'unique_container_entries {}, should be {}'.format(g.unique_container_entries, heads))
    W.require(sorted(g.container_timestamp) == sorted(m.held), 'container_timestamp {}'.format(g.container_timestamp))
    for n in m.held:
        t0, t1 = c.added_at[n]
        t = calendar.timegm(time.strptime(g.container_timestamp[n], '%Y%m%d_%H%M%S'))
        W.require(t0 <= t <= t1, 'container {} was added at {} to {} and is stamped {}'.format(n, t0, t1, g.container_timestamp[n]))
    if c.added_at:
        lo, hi = c.times
        W.require((g.min_time or None) == (None if lo is None else stamp(lo)), 'min_time is {!r}, should be {}'.format(g.min_time, lo and stamp(lo)))
        W.require((g.max_time or None) == (None if hi is None else stamp(hi)), 'max_time is {!r}, should be {}'.format(g.max_time, hi and stamp(hi)))
        W.require(g.epsg == 26917, 'epsg is {!r}'.format(g.epsg))
        W.require(g.vertical_reference == c.vref, 'vertical reference is {!r}'.format(g.vertical_reference))
        W.require(g.positive_up == ('height' in c.vref), 'positive_up is {}'.format(g.positive_up))
    n = sum(len(a) for a in m.held.values())
    W.require(g.points_count == n, 'points_count is {}, should be {}'.format(g.points_count, n))
    W.require(abs(float(g.mean_depth) - m.mean_depth()) < 2e-3, 'mean depth is {}, should be {}'.format(g.mean_depth, m.mean_depth()))
    if m.held:
        W.require(g.number_of_tiles == len(m.by_square(c.spec.tile)), 'number_of_tiles is {}, should be {}'.format(g.number_of_tiles, len(m.by_square(c.spec.tile))))
        for t in g.tiles.flat:
            if isinstance(t, BathyGrid):
                # subgrids describe their own content
                k = (W.fdiv(t.min_x, c.spec.tile), W.fdiv(t.min_y, c.spec.tile))
                mine = m.by_square(c.spec.tile)[k]
                W.require(sorted(t.container) == sorted({x for x, _ in mine}), 'subgrid {}: containers {}'.format(k, sorted(t.container)))
                W.require(t.points_count == len(mine), 'subgrid {}: {} points'.format(k, t.points_count))
                mean = sum(float(p['z']) for _, p in mine) / len(mine)
                W.require(abs(float(t.mean_depth) - mean) < 2e-3, 'subgrid {}: mean depth {}, should be {}'.format(k, t.mean_depth, mean))
    if c.last and m.held:
        W.require(g.grid_algorithm == c.last['alg'], 'grid_algorithm is {}'.format(g.grid_algorithm))
        want = c.last['res'] if c.last['res'] is not None else 'AUTO_' + c.last['auto'].upper()
        W.require(W.norm(g.grid_resolution) == W.norm(want), 'grid_resolution is {}, should be {}'.format(g.grid_resolution, want))
    if op[0] == 'grid':
        W.require(sorted(float(r) for r in g.resolutions) == sorted(W.expected(m, **c.last)), 'resolutions are {}'.format(g.resolutions))
    if not m.held:
        W.require(not g.resolutions, 'an empty grid has resolutions {}'.format(g.resolutions))
    report(c, g, m, files)


def report(c, g, m, files):
    if not m.held:
        return
    a = g.return_attribution()
    exp = {'grid_folder': g.output_folder, 'name': g.name, 'type': type(g), 'grid_resolution': g.grid_resolution, 'grid_algorithm': g.grid_algorithm, 'epsg': 26917, 'vertical_reference': c.vref,
           'height': g.max_y - g.min_y, 'width': g.max_x - g.min_x, 'minimum_x': g.min_x, 'maximum_x': g.max_x, 'minimum_y': g.min_y, 'maximum_y': g.max_y, 'minimum_time_utc': g.min_time,
           'maximum_time_utc': g.max_time, 'tile_size': c.spec.tile, 'subtile_size': c.spec.sub if c.spec.kind == 'vr' else 0, 'tile_count': g.number_of_tiles, 'resolutions': g.resolutions, 'storage_type': g.storage_type}
    for k, v in exp.items():
        W.require(k in a and W.norm(a[k]) == W.norm(v), 'attribution: {} is {}, should be {}'.format(k, a.get(k), v))
    src = {k: v for k, v in a.items() if k.startswith('source_')}
    W.require(sorted(src) == sorted('source_' + n for n in m.held), 'attribution lists {}, containers are {}'.format(sorted(src), sorted(m.held)))
    for n in m.held:
        W.require(list(src['source_' + n]['multibeam_lines']) == files[n], 'attribution of {}: {}'.format(n, src['source_' + n]))
        W.require(src['source_' + n]['time'] == g.container_timestamp[n], 'attribution of {}: {}'.format(n, src['source_' + n]))
    text = repr(g)
    for s in (str(g.min_time), str(g.max_time), '26917'):
        W.require(s in text, 'summary does not mention {}: {}'.format(s, text))


def set_zone(z):
    os.environ['TZ'] = z
    time.tzset()


@task
def explore(part, spec, world, alpha, prefix, depth, zone, vref, disk):
    old = os.environ.get('TZ')
    set_zone(zone)
    try:
        ctx = Ctx(W.Spec(**spec), world, disk, vref=vref, zone=zone)
        try:
            def chk(c, op, h, b):
                look(part, c, op)
                if c.folder and op[0] != 'reload' and c.added_at:
                    keep = c.grid
                    c.grid = load_grid(c.folder)
                    try:
                        look(part, c, op)
                    finally:
                        c.grid = keep
                part.outcome((W.meta(c.grid), sorted(c.model.held)))
            ops.explore(part, ctx, prefix, alpha, depth, chk)
        finally:
            ctx.close()
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()


HEIGHT = 'VERTCRS["x",VDATUM["y"],CS[vertical,1],AXIS["gravity-related height (h)",up],LENGTHUNIT["metre",1]]'


def plan(run):
    t = run.thorough
    i = 0
    for kind in ('sr', 'vr'):
        for backend in ('numpy', 'zarr'):
            for disk in (False, True):
                world = 'overlap' if kind == 'sr' else 'bands'
                names = list(META[world])
                if not t:
                    names = names[1:] if kind == 'sr' else names
                g = [['grid', 'mean', 1.0, 'full', None, True], ['grid', 'shoalest', None, 'full', 'depth', True]]
                a = [['add', n] for n in names] + [['rm', n] for n in names] + (g if t or not disk else g[i % 2:i % 2 + 1]) + ([['reload']] if disk else [])
                for p in ops.prefixes(a, 2):
                    if not disk or p[1][0] != 'reload' or t:
                        run.add(explore, spec=W.Spec(kind=kind, backend=backend, off='utm').json(), world=world, alpha=a, prefix=p, depth=(3 if backend == 'numpy' and not disk else 2) if not t else 4 if not disk else 3,
                                zone=ZONES[i % len(ZONES)], vref='waterline' if i % 2 else HEIGHT, disk=disk)
                    i += 1
    run.bound(operations=5 if not t else 6, time_zones=ZONES)
    run.assumptions = ['the time range is the union of the ranges given with all additions, also of containers removed since (the data itself carries no times)', 'times are later than 1970-01-01']
