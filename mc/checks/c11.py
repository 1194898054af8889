"""C11 a query at a position returns the value of the cell that covers it"""
import numpy as np

from .. import arrange as A
from .. import env
from .. import world as W
from ..core import task, guarded, full, Violation
from bathygrid.convenience import load_grid

LEVEL = 'exploration'
RULE = ('every position of a lattice twice as fine as the cells (edges, corners and centres), reaching outside the grid on all sides, for every layer, every resolution and no resolution, '
        'as array, list, tuple and single numbers, compared with the value of the covering cell computed from the points')


def table(surfs, lyr, res, X, Y):
    """value of the covering cell, of the finest resolution with data if none is given; nan = no data, inf = undetermined"""
    out = np.full(X.shape, np.nan)
    for r in ([res] if res else sorted(surfs)):
        lut = {k: (np.inf if st[lyr] is None else st[lyr]) for k, st in surfs[r].items() if lyr in st}
        ix, iy = np.floor(X / r).astype(int), np.floor(Y / r).astype(int)
        for k, v in lut.items():
            m = np.isnan(out) & (ix == k[0]) & (iy == k[1])
            out[m] = v
    return out


def agree(e, v, lyr, nod):
    """elementwise"""
    v = np.asarray(v, dtype=np.float64)
    none = np.isnan(e)
    blank = np.isnan(v) if np.isnan(nod) else v == np.float32(nod)
    if lyr == 'density':
        blank = blank | (v == 0) | (not np.isnan(nod) and v == int(nod))
    with np.errstate(invalid='ignore'):
        close = np.abs(e - v) <= W.TOL + 1e-6 * np.abs(e)
    return np.where(none, blank, np.isinf(e) | close)


def same(e, v, lyr, nod):
    return bool(agree(np.float64(e), v, lyr, nod))


def look(part, g, spec, surfs, pos, singles):
    """ask the grid at every position"""
    step = min(surfs) / 2
    x0, x1, y0, y1 = g.min_x - 2 * step, g.max_x + 2 * step, g.min_y - 2 * step, g.max_y + 2 * step
    xs, ys = np.arange(x0, x1 + step / 2, step), np.arange(y0, y1 + step / 2, step)
    X, Y = [a.ravel() for a in np.meshgrid(xs, ys)]
    # a second order, so that positions inside and outside alternate
    perm = np.argsort((np.arange(X.size) * 7919) % X.size, kind='stable')
    for lyr in spec.layers:
        for res in [None] + sorted(surfs):
            if res is None and sorted(float(r) for r in g.resolutions) != sorted(surfs):
                continue
            exp = table(surfs, lyr, res, X, Y)
            for nod in (np.nan, -9999.0, -9999.1):
                xx, yy = X.copy(), Y.copy()
                got = g.layer_values_at_xy(xx, yy, lyr, res, nod)
                W.require((xx == X).all() and (yy == Y).all(), 'the query changed the positions it was given')
                verdict(exp, got, X, Y, lyr, res, nod, 'array')
                got = g.layer_values_at_xy(X[perm], Y[perm], lyr, res, nod)
                verdict(exp[perm], got, X[perm], Y[perm], lyr, res, nod, 'array in another order')
                got = g.layer_values_at_xy(X[perm].tolist(), tuple(Y[perm].tolist()), lyr, res, nod)
                verdict(exp[perm], got, X[perm], Y[perm], lyr, res, nod, 'list')
                part.checks += 3 * X.size
                if singles and (np.isnan(nod) or lyr == spec.layers[0]):
                    idx = [i for i in range(X.size) if singles == 'all' or i % (29 if singles == 'some' else 113) == 0 or (not np.isnan(exp[i]) and i % (3 if singles == 'some' else 13) == 0)]
                    for i in idx:
                        x, y = float(X[i]), float(Y[i])
                        v = g.layer_values_at_xy(x, y, lyr, res, nod)
                        W.require(np.ndim(v) == 0, 'asked for a number, got {}'.format(type(v)))
                        W.require(same(exp[i], v, lyr, nod), '{} at {} resolution {} asked as a number: {}, should be {}'.format(lyr, (x, y), res, v, exp[i]))
                        part.checks += 1
                    for i in idx[::3]:
                        for form, v in (('numpy float', g.layer_values_at_xy(X[i], Y[i], lyr, res, nod)), ('array of one', g.layer_values_at_xy(X[i:i + 1], Y[i:i + 1], lyr, res, nod)),
                                        ('list of one', g.layer_values_at_xy([float(X[i])], [float(Y[i])], lyr, res, nod))):
                            W.require(np.size(v) == 1 and same(exp[i], np.ravel(v)[0], lyr, nod), '{} at {} resolution {} asked as {}: {}, should be {}'.format(lyr, (X[i], Y[i]), res, form, v, exp[i]))
                            part.checks += 1
                        if X[i].is_integer() and Y[i].is_integer():
                            v = g.layer_values_at_xy(int(X[i]), int(Y[i]), lyr, res, nod)
                            W.require(same(exp[i], v, lyr, nod), '{} at {} asked as integers: {}, should be {}'.format(lyr, (X[i], Y[i]), v, exp[i]))
                        for typ in (np.int64, np.int32, np.float32):
                            if typ(X[i]) == X[i] and typ(Y[i]) == Y[i]:
                                v = g.layer_values_at_xy(typ(X[i]), typ(Y[i]), lyr, res, nod)
                                W.require(np.ndim(v) == 0 and same(exp[i], v, lyr, nod), '{} at {} asked as {}: {}, should be {}'.format(lyr, (X[i], Y[i]), typ.__name__, v, exp[i]))
                                part.checks += 1
                    whole = [i for i in idx if X[i].is_integer() and Y[i].is_integer()]
                    if whole:
                        v = g.layer_values_at_xy([int(X[i]) for i in whole], [int(Y[i]) for i in whole], lyr, res, nod)
                        verdict(exp[whole], v, X[whole], Y[whole], lyr, res, nod, 'list of integers')


def verdict(exp, got, X, Y, lyr, res, nod, form):
    got = W.npa(got)
    W.require(got.shape == X.shape, '{} positions as {} give an answer of shape {}'.format(X.shape, form, got.shape))
    ok = agree(np.asarray(exp), got, lyr, nod)
    if not ok.all():
        i = int(np.argwhere(~ok)[0][0])
        raise Violation('{} at {} resolution {} nodata {} asked as {}: {}, should be {}'.format(lyr, (float(X[i]), float(Y[i])), res, nod, form, got[i], exp[i]))


def one(part, spec, rows, cols, arr, alg, res, auto, kw, extra, reload_, singles):
    with env.scratch() as d:
        g, grd, allm = A.build(spec, rows, cols, arr, alg, res, auto, extra=extra, folder=(d + '/g') if reload_ else '', **kw)
        if reload_:
            g = load_grid(d + '/g')
        surfs = A.surfaces(grd, alg, res, auto, extra)
        before = W.state_digest(g)
        look(part, g, spec, surfs, False, singles)
        W.require(W.state_digest(g) == before, 'the queries changed the grid')
        part.outcome((arr, sorted(surfs), [sorted(s) for s in surfs.values()]))


@task
def queries(part, spec, rows, cols, start, step, alg='mean', res=1.0, auto=None, kw=None, extra=(), reload_=False, singles='some'):
    sp = W.Spec(**spec)
    kw = dict(kw or {})
    kw['base'] = tuple(kw.get('base', (0, 0)))
    for i, arr in enumerate(A.states(rows, cols)):
        if 'G' not in arr or i % step != start:
            continue
        case = {'spec': spec, 'rows': rows, 'cols': cols, 'tiles': arr, 'alg': alg, 'res': res, 'auto': auto, 'kw': kw, 'extra': list(extra), 'reload': reload_}
        part.sample(case)
        part.state(repr(case))
        k = dict(kw)
        if k.get('half') == 'all':
            k['half'] = [j for j, s in enumerate(arr) if s == 'G']
        guarded(part, case, one, part, sp, rows, cols, arr, alg, res, auto, k, tuple(extra), reload_, singles)
        part.executions += 1
        if full(part):
            return


def plan(run):
    t = run.thorough
    S = W.Spec
    cfg = [
        (S(), 2, 2, dict(res=1.0)),
        (S(backend='zarr', off='utm'), 1, 2, dict(res=2.0, alg='shoalest', kw=dict(neg=True), reload_=True)),
        (S(off='neg', dt='v'), 2, 1, dict(res=0.5, kw=dict(base=(-4, -8)), singles='all')),
        (S(kind='vr'), 2, 2, dict(res=1.0, kw=dict(half='all'))),
        (S(kind='vr', off='utm', dt='z'), 2, 2, dict(res=None, auto='depth', kw=dict(deep=True), singles='few')),
        (S(kind='vr', backend='zarr', dt='h'), 1, 2, dict(res=None, auto='depth', kw=dict(deep=True, base=(-4, -4)), reload_=True, singles='few' if not t else 'some')),
        (S(kind='vr'), 1, 3, dict(res=None, auto='depth', kw=dict(deep=True, half='all'), singles='few')),
        (S(bs=True), 1, 2, dict(res=1.0)),
        (S(tile=0.25, sub=0.125, off='south'), 2, 1, dict(res=1 / 32, singles='few')),
        (S(kind='vr', backend='zarr', tile=0.25, sub=0.125, off='utm'), 1, 2, dict(res=1 / 16, extra=(1 / 64,), singles='few')),
    ]
    if t:
        cfg += [(S(), 2, 3, dict(res=1.0)), (S(kind='vr'), 2, 3, dict(res=None, auto='depth', kw=dict(deep=True))), (S(kind='vr', backend='zarr'), 3, 1, dict(res=None, auto='depth', kw=dict(deep=True, half='all'), singles='all')),
                (S(off='utm'), 2, 2, dict(res=0.5, singles='all')), (S(kind='vr', off='utm', bs=True), 2, 2, dict(res=0.5, singles='all'))]
    for sp, r, c, k in cfg:
        n = 3 ** (r * c)
        step = min(n, 9 if r * c < 4 else 27 if r * c == 4 else 81)
        for s in range(step):
            run.add(queries, spec=sp.json(), rows=r, cols=c, start=s, step=step, **k)
    run.bound(lattices=sorted({'{}x{}'.format(r, c) for _, r, c, _ in cfg}), position_step='half a cell', margin='one cell outside on every side')
