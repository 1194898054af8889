"""C24 creating never takes over existing content and loading restores the type made"""
import itertools
import os
import pathlib
import shutil

import numpy as np

from .. import env
from .. import world as W
from ..core import task, guarded, full, Violation
from bathygrid.convenience import create_grid, load_grid, is_bathygrid

LEVEL = 'model_checking'
RULE = ('every combination of valid options and every sequence of creations and uses over every state of the target folder; before and after every step the whole scratch tree is compared, and every '
        'folder is classified and loaded; every invalid option and every folder that is no grid is tried')

TYPES = ('single_resolution', 'variable_resolution_tile')
BACKENDS = ('numpy', 'zarr')
KIND = {'single_resolution': 'sr', 'variable_resolution_tile': 'vr'}
STATES = ('absent', 'absent nested', 'empty', 'file inside', 'folder inside', 'grid sr numpy', 'grid sr zarr', 'grid vr numpy', 'grid vr zarr')
FORMS = ('absolute', 'relative', 'relative nested', 'trailing slash', 'Path', 'dotted')
PTS = W.rows((0.5, 0.5, 10.), (3.5, 2.25, 12.5), (4.0, 0.0, 17.), (-1.25, 2.0, 11.))


def tree(base):
    """path -> content of everything below base"""
    out = {}
    for root, dirs, files in os.walk(base):
        out[os.path.relpath(root, base)] = None
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, base)] = (open(p, 'rb').read(), os.stat(p).st_mtime_ns)
    return out


def outside(t, *folders):
    return {k: v for k, v in t.items() if not any(k == f or k.startswith(f + os.sep) for f in folders)}


def pts(spec):
    return spec.pts(PTS)


def target(base, form):
    """(argument, folder it names)"""
    if form == 'absolute':
        return os.path.join(base, 'a', 'g'), 'a/g'
    if form == 'relative':
        return 'g', 'g'
    if form == 'relative nested':
        return os.path.join('b', 'g'), 'b/g'
    if form == 'trailing slash':
        return os.path.join(base, 'a', 'g') + os.sep, 'a/g'
    if form == 'Path':
        return pathlib.Path(base) / 'a' / 'g', 'a/g'
    return os.path.join(base, 'a', '..', 'a', 'g'), 'a/g'


def prepare(base, rel, state):
    f = os.path.join(base, rel)
    if state == 'absent nested':
        return
    os.makedirs(os.path.dirname(f), exist_ok=True)
    if state == 'absent':
        return
    os.makedirs(f)
    if state == 'file inside':
        open(os.path.join(f, 'notes.txt'), 'w').write('keep')
    elif state == 'folder inside':
        os.makedirs(os.path.join(f, 'sub'))
    elif state.startswith('grid'):
        _, kind, backend = state.split()
        s = W.Spec(kind=kind, backend=backend, off='zero')
        g = s.create(f)
        use(g, s, 'old')


def use(g, spec, name, grid=True):
    g.add_points(pts(spec), name, ['file'], 26917, 'waterline')
    if grid:
        g.grid('mean', 0.5 if spec.sub < 1 else 1.0)


NAMES = {('sr', 'numpy'): 'SRGrid', ('sr', 'zarr'): 'SRGridZarr', ('vr', 'numpy'): 'VRGridTile', ('vr', 'zarr'): 'VRGridTileZarr'}


def same_kind(g, spec, what):
    W.require(type(g).__name__ == NAMES[(spec.kind, spec.backend)], '{}: a {} grid with {} is a {}'.format(what, spec.kind, spec.backend, type(g).__name__))
    W.require(g.tile_size == spec.tile, '{}: tile size is {}, should be {}'.format(what, g.tile_size, spec.tile))
    if spec.kind == 'vr':
        W.require(g.subtile_size == spec.sub, '{}: subtile size is {}, should be {}'.format(what, g.subtile_size, spec.sub))
    W.require(bool(g.is_backscatter) == spec.bs, '{}: is_backscatter is {}'.format(what, g.is_backscatter))
    W.require(g.depth_key == spec.depth, '{}: the layer of z is {}'.format(what, g.depth_key))


def create(spec, folder):
    return create_grid(folder_path=folder, grid_type=[k for k, v in KIND.items() if v == spec.kind][0], grid_backend=spec.backend, tile_size=spec.tile, subtile_size=spec.sub, is_backscatter=spec.bs)


@task
def creations(part, form, state, seqs):
    """seqs: lists of specs created one after the other at the same place"""
    for seq in seqs:
        def one():
            with env.scratch() as base:
                base = os.path.realpath(base)
                old = os.getcwd()
                os.chdir(base)
                try:
                    arg, rel = target(base, form)
                    if form == 'dotted':
                        os.makedirs(os.path.join(base, 'a'))
                    prepare(base, rel, state)
                    away = os.path.join(base, 'elsewhere')      # a grid is used from another directory than it was made from
                    os.makedirs(away)
                    made = []
                    for i, s in enumerate(seq):
                        spec = W.Spec(**s)
                        before = tree(base)
                        free = rel not in before or not any(k.startswith(rel + os.sep) for k in before)
                        g = create(spec, arg)
                        part.transitions += 1
                        where = os.path.relpath(os.path.realpath(g.output_folder), base)
                        after = tree(base)
                        if free:
                            W.require(where == rel, 'creating in the free folder {} uses {}'.format(rel, where))
                        else:
                            W.require(where not in before, 'creating at the occupied {} uses {} that is there'.format(rel, where))
                            W.require(os.path.dirname(where) == os.path.dirname(rel), 'creating at the occupied {} uses {}, which is not beside it'.format(rel, where))
                        new = set(after) - set(before)
                        W.require(os.path.isdir(os.path.join(base, where)), 'the folder {} does not exist'.format(where))
                        W.require({k: v for k, v in after.items() if k in before} == before and all(n == where or where.startswith(n + os.sep) for n in new), 'creating changed {}'.format(
                            sorted(k for k in set(after) | set(before) if after.get(k, 1) != before.get(k, 1))[:4]))
                        same_kind(g, spec, 'created')
                        W.require(not is_bathygrid(os.path.join(base, where)), 'an empty folder is taken for a grid')
                        use(g, spec, 'b{}'.format(i), False)
                        os.chdir(away)
                        use(g, spec, 'c{}'.format(i))
                        g.remove_points('b{}'.format(i))
                        os.chdir(base)
                        part.transitions += 1
                        last = tree(base)
                        last, after = outside(last, where), outside(after, where)
                        W.require(last == after, 'using the new grid changed {}'.format(sorted(k for k in set(last) | set(after) if last.get(k, 1) != after.get(k, 1))[:4]))
                        made.append((where, spec, 'c{}'.format(i), W.snap(g, spec)))
                        part.checks += 4
                    for where, spec, name, snap in made:
                        for p in (os.path.join(base, where), where, os.path.join(base, where) + os.sep, pathlib.Path(base) / where):
                            os.chdir(base)
                            W.require(is_bathygrid(p), '{} is not recognised as a grid'.format(p))
                            g = load_grid(p)
                            os.chdir(away)
                            part.transitions += 1
                            same_kind(g, spec, 'loaded')
                            W.require(sorted(g.container) == [name], 'loaded {} with containers {}'.format(p, g.container))
                            if p == where or (len(made) == 1):
                                m = W.diff_snap(snap, W.snap(g, spec))
                                W.require(m is None, m)
                            part.checks += 2
                        os.chdir(base)
                        n = os.path.relpath(os.path.join(base, where + ' saved'), base)
                        g.save(n, progress_bar=False)
                        os.chdir(away)
                        g.remove_points(name)
                        g = load_grid(os.path.join(base, where + ' saved'))
                        W.require(not g.container and os.listdir(away) == [], 'after a removal the saved grid holds {}, and {} is in the current directory'.format(g.container, os.listdir(away)))
                        W.require(sorted(load_grid(os.path.join(base, where)).container) == [name], 'a removal from the saved copy reached the first grid')
                        os.chdir(base)
                        shutil.rmtree(os.path.join(base, where + ' saved'))
                        part.checks += 2
                    for p in (base, os.path.join(base, os.path.dirname(made[0][0])), os.path.join(base, made[0][0], type(g).__name__ + '_Root')):
                        if os.path.realpath(p) not in [os.path.join(base, w[0]) for w in made]:
                            W.require(not is_bathygrid(p), '{} is taken for a grid'.format(p))
                    part.outcome((form, state, len({w[0] for w in made}), [w[0] == rel for w in made]))
                    part.state((form, state, repr(seq)))
                finally:
                    os.chdir(old)
        guarded(part, {'form': form, 'state': state, 'created': seq}, one)
        part.executions += 1
        if full(part):
            return


@task
def options(part, tiles, disk):
    """all valid options, in memory and on disk, loaded before gridding and after"""
    for gt, be, (tile, sub), bs, typ in itertools.product(TYPES, BACKENDS, tiles, (False, True), (float, int)):
        if typ is int and (tile != int(tile) or sub != int(sub)):
            continue
        spec = W.Spec(kind=KIND[gt], backend=be, tile=typ(tile), sub=typ(sub), bs=bs, off='zero')

        def one():
            with env.scratch() as base:
                f = os.path.join(base, 'g') if disk else ''
                g = create(spec, f)
                same_kind(g, spec, 'created')
                part.transitions += 1
                if not disk:
                    W.require(not os.listdir(base) and not g.output_folder, 'a grid in memory has folder {}'.format(g.output_folder))
                use(g, spec, 'A', False)
                if not disk:
                    f = os.path.join(base, 'saved')
                    g.save(f)
                h = load_grid(f)
                same_kind(h, spec, 'loaded')
                W.require(sorted(h.container) == ['A'], 'containers are {}'.format(h.container))
                h.add_points(pts(spec), 'B', ['file'], 26917, 'waterline')
                h.grid('mean', min(0.5, sub))
                k = load_grid(f)
                part.transitions += 5
                same_kind(k, spec, 'loaded again')
                m = W.Model(spec)
                m.add('A', pts(spec))
                m.add('B', pts(spec))
                W.check_placement(k, m)
                W.same_surface(m.surface(min(0.5, sub), 'mean'), W.obs_surface(k, min(0.5, sub), spec.layers), 'surface')
                part.checks += 5
                part.state(repr(spec.json()))
                part.outcome((repr(spec.json()), disk))
        guarded(part, {'options': spec.json(), 'disk': disk, 'number type': typ.__name__}, one)
        part.executions += 1
        if full(part):
            return


BAD = [dict(grid_type='quadtree'), dict(grid_type=''), dict(grid_backend='dask'), dict(grid_backend=''), dict(tile_size=3.0), dict(tile_size=0), dict(tile_size=-4.0), dict(tile_size=1000), dict(tile_size=0.3),
       dict(tile_size=5.5), dict(grid_type='variable_resolution_tile', subtile_size=3.0), dict(grid_type='variable_resolution_tile', subtile_size=-2.0), dict(grid_type='variable_resolution_tile', subtile_size=100),
       dict(grid_type='Single_Resolution'), dict(tile_size=1.5), dict(tile_size=6.0), dict(tile_size=12.0), dict(tile_size=0.75)]

BAD += [dict(b, grid_type='variable_resolution_tile') for b in BAD if 'grid_type' not in b] + [dict(b, grid_backend='zarr') for b in BAD if 'grid_backend' not in b]


@task
def refused(part):
    """invalid options and folders that are no grids"""
    for bad in BAD:
        for state in ('absent', 'empty', 'grid sr numpy'):
            def one():
                with env.scratch() as base:
                    prepare(base, 'g', state)
                    before = tree(base)
                    err = None
                    try:
                        create_grid(**dict(dict(folder_path=os.path.join(base, 'g'), grid_type='single_resolution', grid_backend='numpy', tile_size=4.0, subtile_size=2.0), **bad))
                    except ValueError as e:
                        err = e
                    W.require(err is not None, 'a grid with {} was created'.format(bad))
                    W.require(tree(base) == before, 'refusing {} left {}'.format(bad, sorted(set(tree(base)) - set(before))))
                    part.checks += 2
                    part.outcome(str(err))
            guarded(part, {'refused': bad, 'state': state}, one)
            part.executions += 1
            part.transitions += 1

    def no_grid(name, make, rel):
        def one():
            with env.scratch() as base:
                make(base)
                before = tree(base)
                p = os.path.join(base, rel)
                W.require(is_bathygrid(p) is False or 'two' in name, '{} is taken for a grid'.format(name))
                err = None
                try:
                    load_grid(p)
                except Exception as e:
                    err = e
                W.require(err is not None, '{} was loaded'.format(name))
                W.require(tree(base) == before, 'refusing {} changed it'.format(name))
                part.checks += 3
                part.state(name)
        guarded(part, {'loading': name}, one)
        part.executions += 1
        part.transitions += 2

    def grid_at(kind, backend, rel='g'):
        return lambda b: prepare(b, rel, 'grid {} {}'.format(kind, backend))

    def both(a, c):
        def f(b):
            import shutil
            prepare(b, 'g', 'grid ' + a)
            prepare(b, 'h', 'grid ' + c)
            root = [x for x in os.listdir(os.path.join(b, 'h'))][0]
            shutil.move(os.path.join(b, 'h', root), os.path.join(b, 'g', root))
        return f

    def gone(what):
        def f(b):
            prepare(b, 'g', 'grid sr numpy')
            os.remove(os.path.join(b, 'g', 'SRGrid_Root', what))
        return f
    no_grid('an absent folder', lambda b: None, 'g')
    no_grid('an empty folder', lambda b: os.makedirs(os.path.join(b, 'g')), 'g')
    no_grid('a file', lambda b: open(os.path.join(b, 'g'), 'w').close(), 'g')
    no_grid('a folder of files', lambda b: prepare(b, 'g', 'file inside'), 'g')
    no_grid('a folder of folders', lambda b: prepare(b, 'g', 'folder inside'), 'g')
    no_grid('a folder with a similar name inside', lambda b: os.makedirs(os.path.join(b, 'g', 'SRGrid_Root_old')), 'g')
    no_grid('a folder with the root of something else inside', lambda b: os.makedirs(os.path.join(b, 'g', 'Survey_Root')), 'g')
    no_grid('a folder with the root of an abstract grid inside', lambda b: os.makedirs(os.path.join(b, 'g', 'BathyGrid_Root')), 'g')
    no_grid('a folder with another case inside', lambda b: os.makedirs(os.path.join(b, 'g', 'srgrid_root')), 'g')
    for kind in ('sr', 'vr'):
        for backend in BACKENDS:
            no_grid('the parent of a grid ' + kind + backend, grid_at(kind, backend, 'p/g'), 'p')
            no_grid('the root folder of a grid ' + kind + backend, grid_at(kind, backend), 'g/' + NAMES[(kind, backend)] + '_Root')
    for a, c in itertools.combinations(('sr numpy', 'sr zarr', 'vr numpy', 'vr zarr'), 2):
        no_grid('two grids in one folder: {} and {}'.format(a, c), both(a, c), 'g')


def plan(run):
    t = run.thorough
    kinds = [W.Spec(kind=k, backend=b, off='zero').json() for k in ('sr', 'vr') for b in BACKENDS]
    kinds += [W.Spec(kind=k, backend='numpy', off='zero', bs=True, tile=8.0, sub=1.0).json() for k in ('sr', 'vr')]
    for form in FORMS:
        for state in STATES:
            if form.startswith('relative') and state == 'absent nested' and form == 'relative':
                continue
            n = 2 if not t else 3
            if t or form == 'absolute':
                seqs = [list(s) for s in itertools.product(kinds[:4], repeat=n)] + [[k, k, k] for k in (kinds if t else kinds[:1] + kinds[5:])] + ([[kinds[0]] * 5] if t else [])
            else:
                seqs = [[kinds[0], kinds[3]], [kinds[2], kinds[0]], [kinds[5], kinds[0], kinds[5]]]
            for i in range(0, len(seqs), 16):
                run.add(creations, form=form, state=state, seqs=seqs[i:i + 16])
    sizes = [(4.0, 2.0), (4.0, 4.0), (1024.0, 128.0), (2.0, 0.5), (0.5, 0.25), (1.0, 1.0), (0.25, 0.25)]
    for s in sizes:
        for disk in (False, True):
            run.add(options, tiles=[s], disk=disk)
    run.add(refused)
    run.bound(creations=3 if not t else 5, options=len(sizes) * 8, folder_states=len(STATES), path_forms=len(FORMS))
    run.assumptions = ['a path that names a file is not a place for a grid', 'a folder with a root folder of a grid that is damaged inside is outside']
