"""C23 all input forms give the same grid and stay independent of it"""
import itertools

import dask.array as da
import numpy as np
import xarray as xr

from .. import ops
from .. import world as W
from ..core import task, guarded, full, Violation
from bathygrid.convenience import load_grid

LEVEL = 'model_checking'
RULE = ('every pair of input forms of two containers, every chunking and every order of the points of one container, followed by the same history of operations; after every operation the grid is compared '
        'with that of plain arrays and the input with what it was, and after every addition the input is overwritten')

FIELDS = ['x', 'y', 'z', 'tvu', 'thu']


def recast(a, dt):
    o = np.zeros(len(a), dtype=dt)
    for n in o.dtype.names:
        o[n] = a[n] if n in a.dtype.names else np.arange(len(a)) + 1000
    return o


def dts(a, **kw):
    return [(n, kw.get(n, a.dtype[n])) for n in a.dtype.names]


def dataset(a, names=None, **kw):
    return xr.Dataset({n: ('sounding', a[n].copy()) for n in (names or a.dtype.names)}, **kw)


# form -> function of a structured array, returning (input, arrays it is made of)
FORMS = {
    'array': lambda a: a.copy(),
    'read only': lambda a: _ro(a.copy()),
    'strided': lambda a: np.repeat(a, 2)[::2],
    'reversed view': lambda a: a[::-1].copy()[::-1],
    'extra field': lambda a: recast(a, dts(a) + [('beam', 'i4')]),
    'extra field first': lambda a: recast(a, [('beam', 'i4')] + dts(a)),
    'other order': lambda a: recast(a, dts(a)[::-1]),
    'doubles': lambda a: recast(a, [(n, 'f8') for n in a.dtype.names]),
    'singles': lambda a: recast(a, [(n, 'f4') for n in a.dtype.names]),
    'big endian': lambda a: recast(a, [(n, a.dtype[n].newbyteorder('>')) for n in a.dtype.names]),
    'aligned': lambda a: recast(a, np.dtype(dts(a), align=True)),
    'dask': lambda a: da.from_array(a.copy(), chunks=len(a)),
    'dask one by one': lambda a: da.from_array(a.copy(), chunks=1),
    'dask by two': lambda a: da.from_array(a.copy(), chunks=2),
    'dask extra field': lambda a: da.from_array(recast(a, [('beam', 'i4')] + dts(a)), chunks=2),
    'dask unknown chunks': lambda a: _unknown(a),
    'dataset': lambda a: dataset(a),
    'dataset other order': lambda a: dataset(a, a.dtype.names[::-1]),
    'dataset extra variables': lambda a: dataset(a).assign(beam=('sounding', np.arange(len(a))), other=('k', np.arange(3.0))),
    'dataset with index': lambda a: dataset(a, coords={'sounding': np.arange(len(a))[::-1]}),
    'dataset x y as coordinates': lambda a: dataset(a, [n for n in a.dtype.names if n not in 'xy'], coords={'x': ('sounding', a['x'].copy()), 'y': ('sounding', a['y'].copy())}),
    'dataset of dask': lambda a: dataset(a).chunk({'sounding': 2}),
    'dataset doubles': lambda a: dataset(recast(a, [(n, 'f8') for n in a.dtype.names])),
}


def _ro(a):
    a.setflags(write=False)
    return a


def _unknown(a):
    d = da.from_array(a.copy(), chunks=2)
    return d[d['x'] > -1e30]


def freeze(x):
    """what the input holds, as bytes"""
    if isinstance(x, xr.Dataset):
        return {n: np.asarray(x[n]).tobytes() for n in x.variables}
    return np.asarray(x).tobytes()


def scribble(x):
    """overwrite the input wherever it can be"""
    if isinstance(x, np.ndarray) and x.flags.writeable:
        for n in x.dtype.names:
            x[n] = -99
    elif isinstance(x, xr.Dataset):
        for n in x.variables:
            v = x[n].data
            if isinstance(v, np.ndarray) and v.flags.writeable and n in FIELDS:
                v[...] = -99


def use_results(c, spec):
    """ask for everything and overwrite what comes back"""
    g = c.grid

    def wipe(x):
        if isinstance(x, np.ndarray):
            if x.flags.writeable and x.dtype.kind == 'f':
                x[...] = -77
        elif isinstance(x, (list, tuple)):
            for i in x:
                wipe(i)
            if isinstance(x, list):
                del x[:]
        elif isinstance(x, dict):
            for i in list(x.values()):
                wipe(i)
            x.clear()
    if not g.no_grid:
        for r in list(g.resolutions):
            wipe(g.get_layers_by_name(spec.layers, r))
            wipe(g.get_layers_by_name(sorted(c.model.held), r))
            wipe(g.get_layers_trimmed(spec.layers, r))
            wipe(g.return_surf_xyz(spec.layers, r))
            for *_, data in g.get_tiles_by_resolution(r, spec.layers):
                wipe(data)
            for *_, data in g.get_chunks_of_tiles(r, spec.layers):
                wipe(data)
            for *_, t in W.leaves(g):
                if r in t.cells:
                    for l in spec.layers:
                        wipe(t.get_layers_by_name(l, r))
        for l in spec.layers:
            wipe(g.return_layer_values(l))
        wipe(g.return_layer_names())
        wipe(g.layer_values_at_xy(np.array([0.5, 2.5]), np.array([0.5, 2.5]), spec.depth))
        wipe(g.density_count)
        wipe(g.density_per_square_meter)
        wipe(g.cell_count)
        wipe(g.layer_names)
    for *_, t in list(W.leaves(g))[:3]:
        if spec.kind == 'sr':
            wipe(g.get_tile_neighbor_points(t, 9))
            wipe(g.get_tile_neighbors(t))
    wipe(g.return_extents())
    wipe(g.return_unique_containers())


# all points of a container in one cell, one subtile
W.WORLDS['single'] = {'A': W.rows((0.5, 0.5, 10.), (0.75, 0.25, 12.), seed=0), 'B': W.rows((0.625, 0.75, 21.), (0.5, 0.5, 23.), (1.5, 1.5, 29.), seed=1)}
G = ['grid', 'mean', 1.0, 'full', None, True]
TAIL = [G, ['rm', 'A'], ['grid', 'mean', 1.0, 'update', None, False], ['grid', 'shoalest', 0.5, 'full', None, True]]


class Feed(ops.Ctx):
    """a context whose containers arrive in chosen forms"""

    def __init__(self, spec, world, disk, make):
        super().__init__(spec, world, disk)
        self.make = make
        self.inputs = {}

    def do(self, op):
        if op[0] != 'add':
            return super().do(op)
        n = op[1]
        x = self.make(n, self.pts(n))
        self.inputs[n] = (x, freeze(x))
        files = ['file_' + n]
        self.grid.add_points(x, n, files, 26917, 'waterline', progress_bar=False)
        self.model.add(n, self.pts(n))
        W.require(freeze(x) == self.inputs[n][1], 'adding changed the input of {}'.format(n))
        W.require(files == ['file_' + n], 'adding changed the list of files')
        files.append('x')
        W.require(list(self.grid.container[n]) == ['file_' + n], 'the grid uses the list of files of the caller')


def ordered(s):
    return s


def compare(c, ref, what):
    W.check_placement(c.grid, c.model)
    m = W.diff_snap(ref, W.snap(c.grid, c.spec), tol=1e-5, names=('plain array', what))
    W.require(m is None, m)


_refs = {}


def references(spec, world, order):
    """snaps after every operation, containers given as plain arrays"""
    key = (repr(sorted(spec.json().items())), world, tuple(order))
    if key not in _refs:
        c = ops.Ctx(W.Spec(**dict(spec.json(), backend='numpy')), world)
        out = []
        for op in [['add', n] for n in order] + TAIL:
            c.do(op)
            out.append(skipmeta(W.snap(c.grid, spec)))
        _refs[key] = out
    return _refs[key]


def skipmeta(s):
    s['meta'] = {k: v for k, v in s['meta'].items() if k not in ('storage_type', 'name')}
    return s


def run(part, spec, world, order, disk, make, case, over, keep=True):
    def one():
        c = Feed(spec, world, disk, make)
        try:
            refs = references(spec, world, order)
            for op, ref in zip([['add', n] for n in order] + TAIL, refs):
                c.do(op)
                part.transitions += 1
                if over and op[0] == 'add':
                    scribble(c.inputs[op[1]][0])
                W.check_placement(c.grid, c.model)
                for which, g in [('this form', c.grid)] + ([('this form, loaded', load_grid(c.folder))] if disk and c.model.held else []):
                    m = W.diff_snap(ref, skipmeta(W.snap(g, spec)), tol=1e-5, names=('plain array', which))
                    W.require(m is None, '{} after {}'.format(m, op))
                    part.checks += 1
                if over and c.model.held and (op[0] != 'add' or len(c.model.held) == 2):
                    use_results(c, spec)
                    m = W.diff_snap(ref, skipmeta(W.snap(c.grid, spec)), tol=1e-5, names=('plain array', 'after results of queries were overwritten'))
                    W.require(m is None, '{} after {}'.format(m, op))
                if not over:
                    for n, (x, b) in c.inputs.items():
                        W.require(freeze(x) == b, '{} changed the input of {}'.format(op, n))
            part.outcome((repr(spec.json()), disk, W.digest_of(sorted(refs[-1]['surface'].items()))))
            part.state((repr(case)))
        finally:
            c.close()
    guarded(part, case, one)
    part.executions += 1


@task
def pairs(part, spec, world, order, disk, form, others=None):
    sp = W.Spec(**spec)
    for other in others or FORMS:
        for over in (False, True):
            def make(n, a):
                return FORMS[form if n == order[0] else other](a)
            run(part, sp, world, order, disk, make, {'spec': spec, 'forms': [form, other], 'order': order, 'disk': disk, 'overwritten': over}, over)
            if full(part):
                return


# numbers that only some of the types hold, in the second container
W.WORLDS['types'] = {'A': W.rows((1.0, 0.0, 10.), (3.0, 1.0, 12.), (5.0, 2.0, 11.), seed=0),
                     'B': W.rows((0.625, 0.75, 21.5), (2.0 - 2 ** -20, 2.0, 25.75), (0.25, 4.0 - 2 ** -20, 29.), (5.5, 1.5, -3.5), (5.0, 2.25, 5000.0 + 2 ** -7), seed=1)}
NARROW = {
    'integers': [('x', 'i4'), ('y', 'i4'), ('z', 'i4'), ('tvu', 'f4'), ('thu', 'f4')],
    'integer depths': [('x', 'f8'), ('y', 'f8'), ('z', 'i2'), ('tvu', 'f4'), ('thu', 'f4')],
    'single coordinates': [('x', 'f4'), ('y', 'f4'), ('z', 'f4'), ('tvu', 'f4'), ('thu', 'f4')],
    'half depths': [('x', 'f8'), ('y', 'f8'), ('z', 'f2'), ('tvu', 'f2'), ('thu', 'f2')],
    'unsigned depths': [('x', 'f8'), ('y', 'f8'), ('z', 'u1'), ('tvu', 'f8'), ('thu', 'f8')],
    'double depths': [('x', 'f8'), ('y', 'f8'), ('z', 'f8'), ('tvu', 'f8'), ('thu', 'f8')],
}


@task
def types(part, spec, world, order, disk):
    """the first container of another type than the second, in both orders; the first holds only what its type holds"""
    sp = W.Spec(**spec)
    for name, dt in NARROW.items():
        for wrap in ('array', 'dataset', 'dask by two'):
            def make(n, a):
                if n == 'A':
                    b = np.zeros(len(a), dtype=[f for f in dt if f[0] in a.dtype.names])
                    for f in b.dtype.names:
                        if f in 'xy' and b.dtype[f].kind in 'iu':
                            assert np.array_equal(a[f], np.trunc(a[f]))
                        b[f] = a[f]
                    a = b
                return FORMS[wrap](a)
            run(part, sp, world, order, disk, make, {'spec': spec, 'types': name, 'form': wrap, 'order': order, 'disk': disk}, False)
            if full(part):
                return


def compositions(n):
    if n == 0:
        yield ()
    for i in range(1, n + 1):
        for r in compositions(n - i):
            yield (i,) + r


@task
def chunkings(part, spec, world, order, disk, which):
    """every chunking of one container"""
    sp = W.Spec(**spec)
    n = len(W.WORLDS[world][which])
    for ch in compositions(n):
        for kind in ('array', 'dataset'):
            def make(nm, a):
                if nm != which:
                    return a
                return da.from_array(a, chunks=(ch,)) if kind == 'array' else dataset(a).chunk({'sounding': ch})
            run(part, sp, world, order, disk, make, {'spec': spec, 'chunks of ' + kind: ch, 'container': which, 'order': order, 'disk': disk}, False)
            if full(part):
                return


@task
def orders(part, spec, world, order, disk, which, form):
    """every order of the points of one container"""
    sp = W.Spec(**spec)
    n = len(W.WORLDS[world][which])
    for perm in itertools.permutations(range(n)):
        def make(nm, a):
            return FORMS[form](a[list(perm)]) if nm == which else a
        run(part, sp, world, order, disk, make, {'spec': spec, 'order of ' + which: perm, 'form': form, 'containers': order, 'disk': disk}, False)
        if full(part):
            return


NUMBERS = {'int': int, 'float64': np.float64, 'float32': np.float32, 'int64': np.int64, 'int16': np.int16}


class Numbers(ops.Ctx):
    """a context whose resolutions arrive as another type of number"""
    number = float

    def do(self, op):
        if op[0] == 'grid' and op[2] is not None and self.number(op[2]) == op[2]:
            op = op[:2] + [self.number(op[2])] + op[3:]
        super().do(op)


@task
def numbers(part, spec, world, order, disk):
    """resolutions (and sizes of tiles) given as every type of number, in gridding and in queries"""
    sp = W.Spec(**spec)
    for name, f in NUMBERS.items():
        case = {'spec': spec, 'number type': name, 'disk': disk}

        def one():
            c = Numbers(W.Spec(**dict(spec, tile=int(sp.tile), sub=int(sp.sub))) if name == 'int' else sp, world, disk)
            c.number = f
            try:
                for op, ref in zip([['add', n] for n in order] + TAIL, references(sp, world, order)):
                    c.do(op)
                    part.transitions += 1
                    for which, g in [('this type of number', c.grid)] + ([('this type of number, loaded', load_grid(c.folder))] if disk and c.model.held else []):
                        m = W.diff_snap(ref, skipmeta(W.snap(g, sp)), tol=1e-5, names=('float', which))
                        W.require(m is None, '{} after {}'.format(m, op))
                        part.checks += 1
                        for r in [r for r in g.resolutions if f(r) == r] if not g.no_grid else []:
                            a, b = g.get_layers_by_name(sp.layers, float(r)), g.get_layers_by_name(sp.layers, f(r))
                            W.require(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)), 'layers at resolution {!r} and {!r} differ'.format(float(r), f(r)))
                            xs = np.array([0.5, 2.5, -0.5, 4.25])
                            W.require(np.array_equal(g.layer_values_at_xy(xs, xs, sp.depth, float(r)), g.layer_values_at_xy(xs, xs, sp.depth, f(r)), equal_nan=True), 'values at resolution {!r} differ'.format(f(r)))
                            x1, x2 = g.return_surf_xyz(sp.depth, float(r)), g.return_surf_xyz(sp.depth, f(r))
                            W.require(np.array_equal(x1[0], x2[0]) and np.array_equal(x1[1], x2[1]), 'positions at resolution {!r} differ'.format(f(r)))
                            W.require(len(list(g.get_chunks_of_tiles(float(r), sp.layers))) == len(list(g.get_chunks_of_tiles(f(r), sp.layers))), 'chunks at resolution {!r} differ'.format(f(r)))
                part.outcome((repr(spec), disk, name))
            finally:
                c.close()
        guarded(part, case, one)
        part.executions += 1
        if full(part):
            return


def plan(run_):
    t = run_.thorough
    for kind in ('sr', 'vr'):
        for backend in ('numpy', 'zarr'):
            for disk in (False, True):
                if not t and (backend == 'zarr') != disk:
                    continue
                for dt in ('f32', 'z', 'v') if not disk else ('f32',):
                    for form in FORMS:
                        if not t and (disk and form not in ('array', 'other order', 'dask by two', 'dataset of dask', 'big endian') or dt != 'f32' and 'dask' in form):
                            continue
                        run_.add(pairs, spec=W.Spec(kind=kind, backend=backend, off='neg', dt=dt, bs=dt == 'z').json(), world='overlap', order=['A', 'B'], disk=disk, form=form,
                                 others=None if t or (kind == 'sr' and dt == 'f32' and not disk) else ['array', 'other order', 'dataset'] if not disk else ['array', 'aligned', 'dask by two'])
                for form in FORMS if not disk or t else ('array', 'dask', 'dataset'):
                    run_.add(pairs, spec=W.Spec(kind=kind, backend=backend, off='neg').json(), world='single', order=['A', 'B'], disk=disk, form=form, others=['array', form])
                for which in ('A', 'B') if not disk or t else ('A',) if kind == 'sr' else ():
                    run_.add(chunkings, spec=W.Spec(kind=kind, backend=backend, off='utm').json(), world='overlap', order=['A', 'B'], disk=disk, which=which)
                    for form in ('array', 'dataset', 'dask by two') if not disk or t else ('array',):
                        run_.add(orders, spec=W.Spec(kind=kind, backend=backend, off='neg').json(), world='overlap', order=['A', 'B'], disk=disk, which=which, form=form)
    for kind in ('sr', 'vr'):
        for backend, disk in (('numpy', False), ('numpy', True), ('zarr', True)):
            run_.add(numbers, spec=W.Spec(kind=kind, backend=backend, off='neg').json(), world='overlap', order=['A', 'B'], disk=disk)
    for kind in ('sr', 'vr'):
        for backend, disk in (('numpy', False), ('numpy', True), ('zarr', True)):
            for order in (['A', 'B'], ['B', 'A']):
                for dt, off in (('f32', 'zero'), ('f64', 'neg'), ('z', 'zero'))[:3 if t or not disk else 1]:
                    run_.add(types, spec=W.Spec(kind=kind, backend=backend, off=off, dt=dt).json(), world='types', order=order, disk=disk)
    run_.bound(types=len(NARROW), number_types=len(NUMBERS), forms=len(FORMS), points_chunked=5, points_permuted=5)
    run_.assumptions = ['the numbers of the points are exact in all number types used', 'all containers carry the same kinds of uncertainty']
