"""C13 exported CSV, GeoTIFF and BAG files agree with the surface"""
import glob
import itertools
import os
import time
import xml.etree.ElementTree as et

import h5py
import numpy as np
from osgeo import gdal, osr
from pyproj import CRS

from .. import arrange as A
from .. import env
from .. import world as W
from ..core import task, guarded, full, Violation
from bathygrid.convenience import load_grid

gdal.UseExceptions()

LEVEL = 'exploration'
RULE = ('every combination of format, sign option, sign convention of the data, resolution and chunk size for every arrangement of missing, ungridded and gridded tiles in the bounds; the files are '
        'read back with GDAL, h5py and as text and all nodes of all files together compared with the surface computed from the points')

HEIGHT = 'VERTCRS["x",VDATUM["y"],CS[vertical,1],AXIS["gravity-related height (h)",up],LENGTHUNIT["metre",1]]'
DEPTH = 'VERTCRS["x",VDATUM["y"],CS[vertical,1],AXIS["depth (D)",down],LENGTHUNIT["metre",1]]'
NODATA = 1000000.0


def elevation_sign(neg, vref):
    """factor from a stored value to an elevation (positive up)"""
    return 1.0 if vref == HEIGHT else -1.0


def read_csv(fname):
    with open(fname) as f:
        head = f.readline().split()
        rows = [[float(v) for v in l.split()] for l in f]
    return head, rows


def csv(g, d, spec, surfs, zp, res, sign):
    g.export(os.path.join(d, 'out.csv'), 'csv', z_positive_up=zp, **({} if res is None else {'resolution': res}))
    want = sorted(surfs) if res is None else [res]
    files = sorted(os.listdir(d))
    W.require(files == sorted('out_{}.csv'.format(r) for r in want), 'csv export wrote {}, resolutions are {}'.format(files, want))
    for r in want:
        head, rows = read_csv(os.path.join(d, 'out_{}.csv'.format(r)))
        names = [('depth' if not zp else 'elevation') if l == 'depth' else l for l in spec.layers]
        W.require(sorted(head) == sorted(['x', 'y'] + names), 'csv columns are {}'.format(head))
        got = {}
        for row in rows:
            W.require(len(row) == len(head), 'csv row {}'.format(row))
            v = dict(zip(head, row))
            ix, iy = v['x'] / r - 0.5, v['y'] / r - 0.5
            W.require(abs(ix - round(ix)) * r < 0.001 and abs(iy - round(iy)) * r < 0.001, 'csv node at {} {} is not the centre of a cell of {}'.format(v['x'], v['y'], r))
            k = (int(round(ix)), int(round(iy)))
            W.require(k not in got, 'csv holds node {} twice'.format(k))
            got[k] = v
        flip = sign if zp else 1.0 if sign < 0 else -1.0
        for k, st in surfs[r].items():
            W.require(k in got, 'csv at {}: cell {} is missing'.format(r, k))
            for lyr in spec.layers:
                f = flip if lyr == 'depth' else 1.0
                n = ('elevation' if zp else 'depth') if lyr == 'depth' else lyr
                if st[lyr] is not None:
                    W.require(abs(got[k][n] - f * st[lyr]) <= W.TOL + 1e-6 * abs(st[lyr]), 'csv at {}: {} of cell {} is {}, should be {}'.format(r, n, k, got[k][n], f * st[lyr]))
        for k, v in got.items():
            if k not in surfs[r]:
                W.require(all(np.isnan(v[n]) for n in names if n != 'density') and v.get('density', 0) == 0, 'csv at {}: cell {} should be empty and is {}'.format(r, k, v))


def raster_cells(fname, what, got, res, nbands, epsg, seen_boxes):
    ds = gdal.Open(fname)
    gt = ds.GetGeoTransform()
    W.require(gt[1] == res and gt[5] == -res and gt[2] == 0 and gt[4] == 0, '{}: georeference {}'.format(what, gt))
    srs = osr.SpatialReference(wkt=ds.GetProjection())
    ref = osr.SpatialReference()
    ref.ImportFromEPSG(epsg)
    if srs.IsCompound():
        srs.StripVertical()
    W.require(srs.IsSame(ref, ['IGNORE_DATA_AXIS_TO_SRS_AXIS_MAPPING=YES', 'CRITERION=EQUIVALENT']), '{}: coordinate system is {}, should be EPSG {}'.format(what, srs.ExportToProj4(), epsg))
    W.require(ds.RasterCount >= nbands, '{}: {} bands'.format(what, ds.RasterCount))
    bx, ty = gt[0] / res, gt[3] / res
    W.require(abs(bx - round(bx)) < 1e-6 and abs(ty - round(ty)) < 1e-6, '{}: origin {} {} is off the cells'.format(what, gt[0], gt[3]))
    bx, ty = int(round(bx)), int(round(ty))
    names = []
    for b in range(nbands):
        band = ds.GetRasterBand(b + 1)
        names.append(band.GetDescription())
        nd = band.GetNoDataValue()
        W.require(nd == NODATA, '{}: no-data value of band {} is {}'.format(what, b + 1, nd))
        a = band.ReadAsArray()
        for r, c in np.argwhere(a != np.float32(NODATA)):
            k = (bx + int(c), ty - 1 - int(r))
            W.require(b not in got.setdefault(k, {}), '{}: cell {} is in two files'.format(what, k))
            got[k][b] = float(a[r, c])
    shape = (ds.RasterYSize, ds.RasterXSize)
    ds = None
    return names, shape


def compare_bands(what, got, surf, layers, factor):
    exp = {k: [st[l] for l in layers] for k, st in surf.items()}
    W.require(set(got) == set(exp), '{}: cells {} are missing, cells {} should be empty'.format(what, sorted(set(exp) - set(got))[:4], sorted(set(got) - set(exp))[:4]))
    for k, vals in exp.items():
        for b, v in enumerate(vals):
            f = factor if layers[b] == 'depth' else 1.0
            W.require(b in got[k], '{}: band {} of cell {} is empty'.format(what, b + 1, k))
            W.require(v is None or abs(got[k][b] - f * v) <= W.TOL + 1e-6 * abs(v), '{}: band {} of cell {} is {}, should be {}'.format(what, b + 1, k, got[k][b], None if v is None else f * v))


def raster_layers(spec):
    if spec.bs:
        return ['intensity']
    return [l for l in ('depth', 'vertical_uncertainty') if l in spec.layers]


def geotiff(g, d, spec, surfs, zp, res, sign, dim, epsg):
    kw = {} if res is None else {'resolution': res}
    if dim:
        kw['override_maximum_chunk_dimension'] = dim
    g.export(os.path.join(d, 'out.tif'), 'geotiff', z_positive_up=zp, **kw)
    want = sorted(surfs) if res is None else [res]
    files = set(os.listdir(d))
    layers = raster_layers(spec)
    for r in want:
        got = {}
        mine = sorted(f for f in files if f.startswith('out_{}_'.format(r)) and f.endswith('.tif'))
        W.require(mine, 'no geotiff for {}: {}'.format(r, sorted(files)))
        files -= set(mine)
        for f in mine:
            names, shape = raster_cells(os.path.join(d, f), f, got, r, len(layers), epsg, None)
            exp = {'depth': 'Elevation' if zp else 'Depth', 'intensity': 'Intensity', 'vertical_uncertainty': 'Vertical Uncertainty'}
            W.require(names == [exp[l] for l in layers], '{}: bands are named {}'.format(f, names))
            if dim:
                W.require(max(shape) * r <= max(dim, spec.tile), '{}: {} cells of {} with a maximum of {}'.format(f, shape, r, dim))
        compare_bands('geotiff at {} positive up {} maximum {}'.format(r, zp, dim), got, surfs[r], layers, sign if zp else -sign)
    W.require(not files, 'geotiff export of {} also wrote {}'.format(want, sorted(files)))


def text_all(root, tag):
    return [e.text for e in root.iter() if e.tag.endswith('}' + tag)]


def bag(g, d, spec, surfs, res, sign, dim, epsg, times):
    kw = {} if res is None else {'resolution': res}
    if dim:
        kw['override_maximum_chunk_dimension'] = dim
    g.export(os.path.join(d, 'out.bag'), 'bag', vert_crs=DEPTH, individual_name='someone', **kw)
    want = sorted(surfs) if res is None else [res]
    files = set(os.listdir(d))
    layers = raster_layers(spec)
    for r in want:
        got = {}
        mine = sorted(f for f in files if f.startswith('out_{}_'.format(r)) and f.endswith('.bag'))
        W.require(mine, 'no bag for {}: {}'.format(r, sorted(files)))
        files -= set(mine)
        for f in mine:
            p = os.path.join(d, f)
            names, shape = raster_cells(p, f, got, r, len(layers), epsg, None)
            cells = None
            with h5py.File(p, 'r') as h:
                root = h['BAG_root']
                el = root['elevation'][:]
                un = root['uncertainty'][:]
                ok = el != np.float32(NODATA)
                a = root['elevation'].attrs
                W.require(abs(float(a['Maximum Elevation Value']) - el[ok].max()) < 1e-3 and abs(float(a['Minimum Elevation Value']) - el[ok].min()) < 1e-3,
                          '{}: elevation range {} to {}, holds {} to {}'.format(f, a['Minimum Elevation Value'], a['Maximum Elevation Value'], el[ok].min(), el[ok].max()))
                if len(layers) == 2:
                    a = root['uncertainty'].attrs
                    W.require(abs(float(a['Maximum Uncertainty Value']) - un[ok].max()) < 1e-3 and abs(float(a['Minimum Uncertainty Value']) - un[ok].min()) < 1e-3,
                              '{}: uncertainty range {} to {}, holds {} to {}'.format(f, a['Minimum Uncertainty Value'], a['Maximum Uncertainty Value'], un[ok].min(), un[ok].max()))
                meta = root['metadata'][:].tobytes().decode().replace('\x00', '')
            x = et.fromstring(meta)
            W.require(text_all(x, 'beginPosition') == [times[0]] and text_all(x, 'endPosition') == [times[1]],
                      '{}: time range {} to {}, should be {}'.format(f, text_all(x, 'beginPosition'), text_all(x, 'endPosition'), times))
            W.require('depth (D)' not in meta and 'down' not in meta.lower().replace('breakdown', ''), '{}: vertical reference is positive down'.format(f))
            W.require('gravity-related height' in meta.lower(), '{}: vertical reference is not given'.format(f))
            rxl = f[:-4] + '.bag_rxl'
            W.require(rxl in files, '{}: no registration file'.format(f))
            files.discard(rxl)
            w = [e.text for e in et.parse(os.path.join(d, rxl)).getroot().iter('wkt')]
            W.require(len(w) == 1 and CRS.from_wkt(w[0]).equals(CRS.from_epsg(epsg), ignore_axis_order=True) or osr_same(w[0], epsg), '{}: registration file holds {}'.format(f, w))
            if dim:
                W.require(max(shape) * r <= max(dim, spec.tile), '{}: {} cells of {} with a maximum of {}'.format(f, shape, r, dim))
        compare_bands('bag at {} maximum {}'.format(r, dim), got, surfs[r], layers, sign)
    files = {f for f in files if not f.endswith('.aux.xml')}
    W.require(not files, 'bag export of {} also wrote {}'.format(want, sorted(files)))


def beside(g, d, spec, surfs, fmt, ext):
    """an existing file of that name stays, the export goes beside it under a name with the time"""
    free, taken = os.path.join(d, 'free'), os.path.join(d, 'ta.ken [1-2] 50% \u00e9')
    os.mkdir(free)
    os.mkdir(taken)
    g.export(os.path.join(free, 'my.out' + ext), fmt)
    p = os.path.join(taken, 'my.out' + ext)
    with open(p, 'w') as f:
        f.write('precious')
    for n in (1, 2):
        t0 = time.time()
        g.export(p, fmt)
        t1 = time.time()
        with open(p) as f:
            W.require(f.read() == 'precious', '{} export overwrote an existing file'.format(fmt))
        stamps = {time.strftime('%Y%m%d_%H%M%S', time.gmtime(v)) for v in range(int(t0), int(t1) + 1)}
        old = sorted(os.listdir(free))
        for s in sorted(stamps, reverse=True):
            new = sorted(f for f in os.listdir(taken) if f.startswith('my.out_{}_'.format(s)))
            if [f.replace('my.out_' + s, 'my.out') for f in new] == old:
                break
        else:
            raise Violation('{} export beside an existing file wrote {}, should be as {}'.format(fmt, sorted(os.listdir(taken)), old))
        for f in new:
            same_file(fmt, ext, os.path.join(free, f.replace('my.out_' + s, 'my.out')), os.path.join(taken, f), 'beside an existing file')
    # the same name, relative to the current directory
    for n, form in (('relative', 'my.out' + ext), ('nested', os.path.join('sub', 'my.out' + ext))):
        here = os.path.join(d, n)
        os.makedirs(os.path.join(here, 'sub'))
        cwd = os.getcwd()
        os.chdir(here)
        try:
            g.export(form, fmt)
        finally:
            os.chdir(cwd)
        there = os.path.join(here, 'sub') if n == 'nested' else here
        found = sorted(f for f in os.listdir(there) if f != 'sub')
        W.require(found == old and sorted(os.listdir(here)) == sorted(old * (n != 'nested') + ['sub']), '{} export to the {} name {} wrote {}, should be {}'.format(fmt, n, form, found, old))
        for f in found:
            same_file(fmt, ext, os.path.join(free, f), os.path.join(there, f), 'to a {} name'.format(n))


def same_file(fmt, ext, p, q, what):
    if ext == '.csv':
        with open(p, 'rb') as a, open(q, 'rb') as b:
            W.require(a.read() == b.read(), 'csv export {} differs'.format(what))
    elif p.endswith(ext):
        a, b = gdal.Open(p), gdal.Open(q)
        W.require(a.GetGeoTransform() == b.GetGeoTransform() and np.array_equal(a.ReadAsArray(), b.ReadAsArray(), equal_nan=True), '{} export {} differs'.format(fmt, what))
        a = b = None


def osr_same(wkt, epsg):
    a, b = osr.SpatialReference(), osr.SpatialReference()
    b.ImportFromEPSG(epsg)
    try:
        a.ImportFromWkt(wkt)
        return bool(a.IsSame(b, ['CRITERION=EQUIVALENT']))
    except Exception:
        return False


def one(part, spec, rows, cols, arr, alg, res, auto, kw, extra, reload_, formats, dims, epsg):
    with env.scratch() as d:
        g, grd, allm = A.build(spec, rows, cols, arr, alg, res, auto, extra=extra, epsg=epsg, folder=(d + '/g') if reload_ else '', **kw)
        if reload_:
            g = load_grid(d + '/g')
        surfs = A.surfaces(grd, alg, res, auto, extra)
        mine = {r: s for r, s in surfs.items() if r in [float(x) for x in g.resolutions]}
        sign = elevation_sign(kw.get('neg'), kw.get('vref'))
        before = W.state_digest(g)
        late = 'U' in arr or kw.get('half')
        times = ('2020-09-13T12:26:40', '2020-09-13T12:30:00' if late else '2020-09-13T12:28:20')
        n = 0

        def sub(fn, *a):
            nonlocal n
            n += 1
            p = os.path.join(d, 'e{}'.format(n))
            os.mkdir(p)
            fn(g, p, spec, *a)
            part.checks += 1
            part.count('files_read_back', len(os.listdir(p)))
        for r in [None] + sorted(surfs) if len(surfs) > 1 else [None]:
            s = mine if r is None else surfs
            for zp in (True, False):
                if 'csv' in formats:
                    sub(csv, s, zp, r, sign)
                if 'geotiff' in formats:
                    for dim in dims:
                        sub(geotiff, s, zp, r, sign, dim, epsg)
            if 'bag' in formats:
                for dim in dims:
                    sub(bag, s, r, sign, dim, epsg, times)
        for fmt, ext in (('csv', '.csv'), ('geotiff', '.tif'), ('bag', '.bag')):
            if fmt in formats:
                sub(beside, s, fmt, ext)
        if spec.bs:
            try:
                g.export(os.path.join(d, 'no.bag'), 'bag')
                raise Violation('a backscatter grid was exported as BAG')
            except ValueError:
                pass
        W.require(W.state_digest(g) == before, 'the exports changed the grid')
        part.outcome((spec.json(), arr, sign, n))


@task
def exports(part, spec, rows, cols, start, step, symbols='.UG', alg='mean', res=1.0, auto=None, kw=None, extra=(), reload_=False, formats=('csv', 'geotiff', 'bag'), dims=(None, 4.0), epsg=26917, arrs=None):
    sp = W.Spec(**spec)
    kw = dict(kw or {})
    kw['base'] = tuple(kw.get('base', (0, 0)))
    for i, arr in enumerate(arrs or A.states(rows, cols, symbols)):
        if 'G' not in arr or i % step != start:
            continue
        case = {'spec': spec, 'rows': rows, 'cols': cols, 'tiles': arr, 'alg': alg, 'res': res, 'auto': auto, 'kw': kw, 'extra': list(extra), 'reload': reload_, 'formats': list(formats), 'dims': list(dims), 'epsg': epsg}
        part.sample(case)
        part.state(repr(case))
        k = dict(kw)
        if k.get('half') == 'all':
            k['half'] = [j for j, s in enumerate(arr) if s == 'G']
        guarded(part, case, one, part, sp, rows, cols, arr, alg, res, auto, k, tuple(extra), reload_, formats, dims, epsg)
        part.executions += 1
        if full(part):
            return


def plan(run):
    t = run.thorough
    S = W.Spec
    NOBAG = ('csv', 'geotiff')
    cfg = [
        (S(off='utm'), 2, 2, '.UG', dict(res=1.0)),
        (S(off='utm', dt='v'), 2, 2, '.UG', dict(res=0.5, kw=dict(neg=True, vref=HEIGHT), epsg=26919)),
        (S(off='utm', dt='z'), 1, 3, '.UG', dict(res=1.0, alg='shoalest', dims=(None, 8.0))),
        (S(off='utm', backend='zarr'), 3, 1, '.UG', dict(res=2.0, reload_=True, kw=dict(neg=True, vref=HEIGHT))),
        (S(kind='vr', off='utm'), 2, 2, '.UG', dict(res=None, auto='depth', kw=dict(deep=True, half='all'), dims=(None, 8.0))),
        (S(kind='vr', off='utm', backend='zarr', dt='h'), 1, 2, '.UG', dict(res=None, auto='depth', kw=dict(deep=True), reload_=True)),
        (S(kind='vr', off='utm'), 1, 3, '.UG', dict(res=1.0, alg='shoalest', kw=dict(neg=True, vref=HEIGHT), dims=(8.0,))),
        (S(off='utm'), 1, 2, '.UG', dict(res=1.0, extra=(2.0,), epsg=32618)),
        (S(off='utm'), 1, 2, '.UG', dict(res=4.0, formats=('csv', 'geotiff', 'bag'))),
        (S(off='zero'), 2, 2, '.UG', dict(res=1.0, kw=dict(base=(-4, -8)), formats=NOBAG)),
        (S(off='utm'), 1, 2, '.UG', dict(res=1.0, kw=dict(vref=HEIGHT))),
        (S(off='utm', kind='vr'), 1, 2, '.UG', dict(res=None, auto='depth', kw=dict(deep=True, vref=HEIGHT))),
        (S(off='utm', kind='vr'), 1, 2, '.UG', dict(res=None, auto='depth', kw=dict(deep=True, vref=DEPTH))),
        (S(off='utm', bs=True), 2, 2, '.UG', dict(res=1.0, kw=dict(neg=True), formats=NOBAG)),
        (S(off='utm', kind='vr', bs=True), 1, 2, '.UG', dict(res=2.0, formats=NOBAG, reload_=True)),
        (S(tile=0.25, sub=0.125, off='utm'), 2, 2, '.G', dict(res=1 / 16, dims=(None, 0.25))),
        (S(kind='vr', tile=0.25, sub=0.125, off='utm'), 1, 2, '.UG', dict(res=1 / 32, dims=(None, 0.25))),
    ]
    if t:
        cfg += [(S(off='utm'), 3, 3, '.G', dict(res=2.0, dims=(None, 4.0, 8.0, 12.0))), (S(kind='vr', off='utm'), 3, 3, '.G', dict(res=1.0, dims=(8.0,))), (S(off='utm'), 2, 3, '.UG', dict(res=1.0, alg='shoalest', dims=(4.0, 8.0))),
                (S(kind='vr', off='utm'), 2, 3, '.UG', dict(res=None, auto='depth', kw=dict(deep=True), dims=(None, 8.0))), (S(off='utm', backend='zarr'), 2, 3, '.UG', dict(res=1.0, reload_=True, kw=dict(neg=True, vref=HEIGHT)))]
    for sp, r, c, sym, k in cfg:
        n = len(sym) ** (r * c)
        step = min(n, 27)
        for s in range(step):
            run.add(exports, spec=sp.json(), rows=r, cols=c, start=s, step=step, symbols=sym, **k)
    # more than ten chunks
    full, less = 'G' * 12, ['G' * j + '.' + 'G' * (11 - j) for j in range(12)]
    for sp, r, c, k in ((S(off='utm'), 3, 4, dict(res=2.0)), (S(kind='vr', off='utm', backend='zarr'), 4, 3, dict(res=2.0)), (S(off='utm'), 12, 1, dict(res=1.0)), (S(kind='vr', off='utm'), 1, 12, dict(res=2.0))):
        for start in range(2):
            run.add(exports, spec=sp.json(), rows=r, cols=c, start=start, step=2, symbols='.G', arrs=[full] + (less if t else [less[5]]), dims=(4.0,), **k)
    run.bound(lattices=sorted({'{}x{}'.format(r, c) for _, r, c, _, _ in cfg}), formats=['csv', 'geotiff', 'bag'])
    run.assumptions = ['grids with negative values and no vertical reference are left out: the formats treat them differently and nothing says which is right']
