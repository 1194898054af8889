"""C02 every cell is the statistic of exactly the points inside it"""
import itertools

import numpy as np

from .. import world as W
from ..core import task, guarded, full

LEVEL = 'exploration'
RULE = ('every ordered assignment of n points with given depths to the stated positions (cell centres, edges, corners of cells, subtiles and tiles) is gridded with every '
        'method and resolution; a case is distinct by the resulting set of surfaces')

EPS = 1.0 / 1024
POS = [(0.5, 0.5), (0.75, 0.25), (1.0, 0.5), (2.0, 2.0), (4.0, 0.5), (4.0, 4.0), (4.0 - EPS, 4.0 - EPS), (-0.25, 0.5), (0.5, 1.0), (0.0, 0.0), (2.0 - EPS, 3.5), (0.25, -4.0)]
ZS = {'distinct': [20., 10.5, 31.25, 5.125, 44.], 'ties': [20., 10.5, 20., 10.5, 20.], 'neg': [-3.5, 4.25, -9., 0., 2.], 'deep': [2000.125, 1990.5, 2100., 15., 999.75]}


def one(part, spec, pos, zs, ress, algs, scale):
    sp = spec
    rws = [(x * scale, y * scale, z, 0.125 * (1 + (i * 5) % 7), 0.25 * (1 + (i * 3) % 8)) for i, ((x, y), z) in enumerate(zip(pos, zs))]
    arr = sp.pts(rws)
    m = W.Model(sp)
    m.add('A', arr)
    for alg in algs:
        g = sp.create()
        g.add_points(sp.pts(rws), 'A', progress_bar=False)
        for r in ress:
            g.grid(alg, r, progress_bar=False)
            part.transitions += 1
            W.check_surface(g, m, alg, r, None, alg)
            part.checks += 1
            part.outcome((alg, r, repr(sorted(m.surface(r, alg).items()))))
        W.require(sorted(g.layer_names) == sorted(sp.layers), 'layers are {}, should be {}'.format(g.layer_names, sp.layers))
        # every resolution is still there
        for r in ress:
            W.same_surface(m.surface(r, alg), W.obs_surface(g, r, sp.layers), '{} at {} after gridding at other resolutions'.format(alg, r))
            part.checks += 1


@task
def assign(part, spec, npos, n, zname, first, ress, scale=1.0):
    sp = W.Spec(**spec)
    zs = ZS[zname][:n]
    for pos in itertools.product(range(npos), repeat=n):
        if list(pos[:len(first)]) != list(first):
            continue
        case = {'spec': spec, 'positions': [POS[p] for p in pos], 'depths': zs, 'resolutions': ress, 'scale': scale}
        part.sample(case)
        guarded(part, case, one, part, sp, [POS[p] for p in pos], zs, ress, ['mean', 'shoalest'], scale)
        part.executions += 1
        if full(part):
            return


@task
def crowd(part, spec, counts, ress, base=10, step=0.25):
    """1..n points in one cell next to cells with fewer, so that counts and divisions are exercised"""
    sp = W.Spec(**spec)
    for k in counts:
        pos = [((i % 9) / 16.0 + 0.125, (i // 9 % 24) / 32.0 + 0.125) for i in range(k)] + [(1.5, 0.5), (0.5, 1.5), (1.5, 0.75)]
        zs = [base + ((i * 37) % 41) * step for i in range(len(pos))]
        case = {'spec': spec, 'points in first cell': k, 'resolutions': ress, 'depths from': base, 'in steps of': step}
        guarded(part, case, one, part, sp, pos, zs, ress, ['mean', 'shoalest'], 1.0)
        part.executions += 1
        if full(part):
            return


@task
def outliers(part, spec, values):
    """two points in one cell: every pair of special depth and uncertainty values"""
    sp = W.Spec(**spec)
    for a, b in itertools.product(values, repeat=2):
        case = {'spec': spec, 'depths': [a, b]}
        guarded(part, case, one, part, sp, [(0.5, 0.5), (0.75, 0.25)], [a, b], [1.0], ['mean', 'shoalest'], 1.0)
        part.executions += 1
        if full(part):
            return


@task
def recrowd(part, spec, parts, res):
    """a cell that fills up container after container, gridded again after each"""
    sp = W.Spec(**spec)
    for alg in ('mean', 'shoalest'):
        case = {'spec': spec, 'points added to first cell': parts, 'resolution': res, 'method': alg}

        def one_():
            g = sp.create()
            m = W.Model(sp)
            for n, k in enumerate(parts):
                name = 'c{}'.format(n)
                arr = np.concatenate([sp.pts([(i / 16.0 + 0.125, i / 32.0, 10.5 + i + n, 0.125 * i, 0.25 * (n + 1)) for i in range(8)] * (k // 8)), sp.pts([(1.5, 0.5 * n, 12. - n, 0.5, 0.5)])])
                m.add(name, arr)
                g.add_points(arr.copy(), name, progress_bar=False)
                g.grid(alg, res, regrid_option='update' if n % 2 else 'full', progress_bar=False)
                part.transitions += 2
                W.check_surface(g, m, alg, res, None, alg)
                part.checks += 1
                part.outcome((alg, repr(sorted(m.surface(res, alg).items()))))
        guarded(part, case, one_)
        part.executions += 1


def plan(run):
    t = run.thorough
    cfgs = []
    for off in ('zero', 'utm') + (('neg', 'south') if t else ()):
        for kind in ('sr', 'vr'):
            cfgs.append((W.Spec(kind=kind, off=off, dt='f64' if off == 'zero' else 'f32'), 'distinct'))
    for dt in ('z', 'v', 'h', 'f32'):
        cfgs.append((W.Spec(kind='sr', off='utm', dt=dt), 'ties' if dt == 'f32' else 'distinct'))
        cfgs.append((W.Spec(kind='vr', off='neg', dt=dt), 'neg'))
    cfgs.append((W.Spec(kind='vr', off='utm', dt='f32', backend='zarr'), 'deep'))
    npos, n = (12, 4) if t else (9, 3)
    for sp, zn in cfgs:
        ress = [0.5, 1.0, 2.0] + ([4.0] if sp.kind == 'sr' else [])
        for k in range(1, n):
            run.add(assign, spec=sp.json(), npos=npos, n=k, zname=zn, first=[], ress=ress)
        for f in range(npos):
            run.add(assign, spec=sp.json(), npos=npos, n=n, zname=zn, first=[f], ress=ress)
    # tiles below one and large tiles
    for kind in ('sr', 'vr'):
        for f in range(npos):
            run.add(assign, spec=W.Spec(kind=kind, tile=1.0, sub=0.5, off='utm').json(), npos=npos, n=2, zname='distinct', first=[f], ress=[0.125, 0.25, 0.5], scale=0.25)
            run.add(assign, spec=W.Spec(kind=kind, tile=64.0, sub=32.0, off='utm').json(), npos=npos, n=2, zname='distinct', first=[f], ress=[4.0, 16.0, 32.0], scale=16.0)
    for kind in ('sr', 'vr'):
        for dt in ('f32', 'f64'):
            run.add(crowd, spec=W.Spec(kind=kind, off='utm', dt=dt).json(), counts=list(range(1, 64 if t else 24)), ress=[1.0, 2.0])
            run.add(outliers, spec=W.Spec(kind=kind, off='utm', dt=dt).json(), values=[0., -0.5, 0.001, 10., 10.5, 9999.5, -430.25, 1000000.0])
    for k in (127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 70000):   # around every number type a count might be kept in
        run.add(crowd, spec=W.Spec(kind='sr' if k % 2 else 'vr', off='utm').json(), counts=[k], ress=[1.0])
    # sums that single precision does not hold
    for k in (3, 100, 5000, 70000):
        for base in (31.3, 10900.3):
            run.add(crowd, spec=W.Spec(kind='vr' if k % 2 else 'sr', off='utm').json(), counts=[k], ress=[1.0], base=base, step=0.37)
    for kind in ('sr', 'vr'):
        for parts in ((104, 104, 104), (24000, 24000, 24000)):
            run.add(recrowd, spec=W.Spec(kind=kind, off='utm').json(), parts=list(parts), res=1.0)
    run.bound(points=n, positions=npos, methods=['mean', 'shoalest'], resolutions_per_tile=4)
    run.assumptions = ['depths are finite; with several shoalest points in one cell their uncertainty is not determined', 'values are compared within {} (layers are rounded to a millimetre)'.format(W.TOL)]
