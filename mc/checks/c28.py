"""C28 bins, sizes, times, coordinate systems and folders are handled exactly"""
import itertools
import os
import shutil
import time
from fractions import Fraction

import h5py
import numpy as np
import dask.array as da
from osgeo import gdal
from pyproj import CRS

from .. import env
from .. import world as W
from ..core import task, guarded, full, apart, Violation
from bathygrid import utilities as U

LEVEL = 'exploration'
RULE = ('every arrangement of bin edges and every position on, next to and between them in every chunking; every power of two and its neighbours; every hour around the changes of clock in every time zone; '
        'every form of every coordinate system; every shape and number of bands; every pattern of faults of the removal of a folder; every sequence of folder creations')


# ---- bins
def edge_sets():
    out = []
    for n in (1, 2, 3, 4):
        for org, size in ((0.0, 1.0), (-2.0, 1.0), (0.0, 0.5), (-1024.0, 1024.0), (500000.0, 64.0), (4988416.0, 1024.0), (-7.25, 0.25)):
            out.append([org + i * size for i in range(n + 1)])
    for n in (2, 3, 4):
        for c in itertools.combinations((0.0, 1.0, 1.5, 4.0, 16.0), n + 1):
            out.append(list(c))
    return out


def positions(edges):
    """(value, bin) of every distinguished position inside of the edges"""
    out = []
    for i, (a, b) in enumerate(zip(edges, edges[1:])):
        for v in (a, float(np.nextafter(a, b)), (a + b) / 2, float(np.nextafter(b, a))):
            out.append((v, i))
    return out


def bin_case(part, xe, ye):
    xe_, ye_ = np.array(xe), np.array(ye)
    pts = [(x, y, j * (len(xe) - 1) + i) for (x, i), (y, j) in itertools.product(positions(xe), positions(ye))]
    for order in ('rows', 'backwards', 'columns'):
        p = pts if order == 'rows' else (pts[::-1] if order == 'backwards' else sorted(pts, key=lambda t: (t[0], t[1])))
        x, y = np.array([q[0] for q in p]), np.array([q[1] for q in p])
        want = np.array([q[2] for q in p])
        forms = [('numpy', x, y), ('numpy view', np.repeat(x, 2)[::2], np.repeat(y, 2)[::2])]
        for c in (len(p), 7, (1,) + (len(p) - 1,)):
            forms.append(('dask {}'.format(c), da.from_array(x, chunks=(c,)), da.from_array(y, chunks=(c,))))
        if order == 'rows':
            forms += [('one point', x[-1:], y[-1:]), ('no point', x[:0], y[:0])]
        for name, a, b in forms:
            got = U.bin2d_with_indices(a, b, xe_, ye_)
            got = np.asarray(got)
            exp = want if name not in ('one point', 'no point') else (want[-1:] if name == 'one point' else want[:0])
            part.executions += 1
            part.checks += 1
            W.require(got.shape == exp.shape and np.issubdtype(got.dtype, np.integer), 'bins of {}: shape {} type {}'.format(name, got.shape, got.dtype))
            bad = np.flatnonzero(got != exp)
            W.require(not bad.size, 'bins of {}: edges {} {}: ({!r}, {!r}) is in bin {}, should be {}'.format(
                name, xe, ye, *(() if not bad.size else (p[bad[0]][0], p[bad[0]][1], got[bad[0]], exp[bad[0]]))) if bad.size else '')
    for a, b in ((x, da.from_array(y, chunks=3)), (da.from_array(x, chunks=3), y), (list(x), list(y))):
        part.checks += 1
        try:
            U.bin2d_with_indices(a, b, xe_, ye_)
        except ValueError:
            continue
        raise Violation('bins of {} and {} were given, not refused'.format(type(a).__name__, type(b).__name__))
    part.state(('bins', tuple(xe), tuple(ye)))
    part.outcome(tuple(want))


@task
def bins(part, xe, yes):
    for ye in yes:
        guarded(part, {'x edges': xe, 'y edges': ye}, bin_case, part, xe, ye)
        if full(part):
            return


# ---- powers of two
def power_oracle(v):
    f = Fraction(v)
    if f <= 0:
        return False
    a, b = f.numerator, f.denominator
    return (a == 1 and b & (b - 1) == 0) or (b == 1 and a & (a - 1) == 0)


def power_values(top, low):
    vals = [0, 0.0, -0.0, -1, -1.0, -2, -0.5, -1024.0, -0.25]
    for e in range(low, top + 1):
        p = 2.0 ** e
        vals += [p, 3 * p, 5 * p, 7 * p, 0.75 * p * 2, -p]
        if e >= 0:
            vals += [2 ** e, np.int64(2 ** e), np.float64(p)]
            if e < 31:
                vals.append(np.int32(2 ** e))
            if 0 < e < 53:
                vals += [2 ** e - 1, 2 ** e + 1, p - 0.5, p + 0.5]
        else:
            vals += [np.float64(p), np.float32(p)]
        if abs(e) <= 12:
            vals += [2.0 ** abs(e) + d for d in (0.001, 0.004, 0.009, 0.05, -0.001)] + [1 / (2.0 ** abs(e) + d) for d in (0.001, 0.004, 0.009, 0.05)]
    vals += list(range(0, 4100)) + [i / 8 for i in range(0, 1024)] + [i / 10 for i in range(1, 100)] + [1 / i for i in range(1, 200)] + [10.0 ** -i for i in range(1, 9)]
    return vals


@task
def powers(part, top, low):
    def one(v):
        part.executions += 1
        part.checks += 1
        got = U.is_power_of_two(v)
        W.require(bool(got) == power_oracle(v.item() if isinstance(v, np.generic) else v), 'is_power_of_two({!r}) is {}'.format(v, got))
        part.outcome((type(v).__name__, bool(got)))
    for v in power_values(top, low):
        part.state((type(v).__name__, repr(v)))
        guarded(part, {'value': repr(v)}, one, v)
        if full(part):
            return


# ---- times
ZONES = ('UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'CHAST-12:45CHADT,M9.5.0/2:45,M4.1.0/3:45', 'HST10', '<+14>-14', '<-12>12', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0')


def days(y, m, d):
    """days from 1970-01-01 of the proleptic Gregorian calendar"""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def stamps():
    out = []
    for y in (1970, 1999, 2000, 2020, 2021, 2023, 2024, 2100):
        for m in range(1, 13):
            for d in ((1, 15) if y not in (2021, 2024) else range(1, 29)):
                for h in ((0, 12) if (m, d) not in ((3, 14), (3, 10), (11, 7), (11, 3), (4, 4), (4, 7), (9, 26), (10, 3)) else range(24)):
                    mi, s = (0, 0) if h == 0 else ((59, 59) if h == 12 else (30, 1))
                    out.append(('{:04d}-{:02d}-{:02d}T{:02d}:{:02d}:{:02d}'.format(y, m, d, h, mi, s), days(y, m, d) * 86400 + h * 3600 + mi * 60 + s))
    out += [('2038-01-19T03:14:07', 2 ** 31 - 1), ('2038-01-19T03:14:08', 2 ** 31), ('2024-02-29T23:59:59', days(2024, 2, 29) * 86400 + 86399), ('2000-02-29T00:00:00', days(2000, 2, 29) * 86400),
            ('1970-01-01T00:00:00', 0), ('1970-01-01T00:00:01', 1)]
    return out


def times_in(zone):
    os.environ['TZ'] = zone
    time.tzset()
    bad, n = [], 0
    for text, sec in stamps():
        for v in (sec, float(sec), sec + 0.25, np.float64(sec), np.int64(sec)):
            n += 1
            try:
                got = U.utc_seconds_to_formatted_string(v)
            except Exception as e:
                got = repr(e)
            if got != text:
                bad.append('time {!r} is written {!r}, should be {!r}'.format(v, got, text))
        n += 1
        try:
            got = U.formatted_string_to_utc_seconds(text)
        except Exception as e:
            got = repr(e)
        if got != sec or not isinstance(got, int):
            bad.append('{!r} is read as {!r}, should be {}'.format(text, got, sec))
    return bad[:1], n


@task
def times(part, zone):
    def one():
        bad, n = apart(times_in, zone)
        part.executions += n
        part.checks += n
        part.state(zone)
        part.outcome(zone)
        W.require(not bad, 'in time zone {}: {}'.format(zone, bad[0] if bad else ''))
    guarded(part, {'zone': zone}, one)


# ---- coordinate systems
EPSG = (4326, 4269, 4617, 6318, 26910, 26917, 26919, 26988, 32601, 32618, 32660, 32701, 32733, 3857, 6344, 6347, 2193, 27700)


def crs_forms(epsg):
    c = CRS.from_epsg(epsg)
    wkt1 = [('wkt 1', c.to_wkt('WKT1_GDAL'), 'any')] if CRS.from_wkt(c.to_wkt('WKT1_GDAL')).equals(c, ignore_axis_order=True) else []   # some lose their axes in it
    return wkt1 + [('number', epsg, 'both'), ('number as text', str(epsg), 'any'), ('CRS', c, 'both'), ('CRS of text', CRS.from_user_input('EPSG:{}'.format(epsg)), 'both'), ('wkt 2', c.to_wkt(), 'any'),
            ('CRS of wkt', CRS.from_wkt(c.to_wkt()), 'both'), ('numpy number', np.int64(epsg), 'any')]


@task
def systems(part, epsg):
    gdal.PushErrorHandler('CPLQuietErrorHandler')
    def one(name, form, which, fn):
        part.executions += 1
        part.checks += 1
        s = fn(form)
        got = CRS.from_wkt(s.ExportToWkt(['FORMAT=WKT2']))
        want = CRS.from_epsg(epsg)
        W.require(got.equals(want, ignore_axis_order=True), '{} as {} became {}'.format(epsg, name, got.name))
        W.require(s.GetAuthorityCode(None) == str(epsg), '{} as {} became {}'.format(epsg, name, s.GetAuthorityCode(None)))
        W.require(bool(s.IsGeographic()) == want.is_geographic and bool(s.IsProjected()) == want.is_projected, '{} as {}: kind of system'.format(epsg, name))
        part.state((epsg, name, fn.__name__))
        part.outcome((epsg, s.ExportToWkt()))
    for name, form, which in crs_forms(epsg):
        guarded(part, {'epsg': epsg, 'form': name}, one, name, form, which, U.crs_to_osgeo)
        if which == 'both':
            guarded(part, {'epsg': epsg, 'form': name, 'pyproj': True}, one, name, form, which, U.pyproj_crs_to_osgeo)
        if full(part):
            return


@task
def no_systems(part):
    gdal.PushErrorHandler('CPLQuietErrorHandler')
    for text in ('', 'no system', 'EPSG', '12ab', '0', '-1', '999999'):
        def one():
            part.executions += 1
            part.checks += 1
            try:
                s = U.crs_to_osgeo(text)
            except Exception:
                part.outcome(text)
                return
            raise Violation('{!r} became the coordinate system {!r}'.format(text, s.ExportToWkt()))
        guarded(part, {'text': text}, one)


# ---- rasters
@task
def rasters(part, rows, cols, bands, driver):
    for transpose, epsg, nodata, named, org, size in itertools.product((True, False), (26917, 'CRS'), (1000000.0, np.nan, -9999.0), (True, False), ((0.0, 0.0), (-1024.0, 4988416.0)), (0.5, 8.0)):
        def one():
            data = [np.arange(rows * cols, dtype=np.float32).reshape(rows, cols) + 100 * b for b in range(bands)]
            data[-1][0, -1] = nodata
            keep = [d.copy() for d in data]
            names = tuple('Layer {}'.format(b) for b in range(bands)) if named else ()
            gt = [org[0], size, 0, org[1], 0, -size]
            with env.scratch() as d:
                f = os.path.join(d, 'r.tif') if driver == 'GTiff' else ''
                ds = U.gdal_raster_create(f, data, gt, 26917 if epsg != 'CRS' else CRS.from_epsg(26917), nodatavalue=nodata, bandnames=names, driver=driver, transpose=transpose)
                part.executions += 1
                if driver == 'GTiff':
                    W.require(os.listdir(d) == ['r.tif'], 'raster: files {}'.format(os.listdir(d)))
                    ds = gdal.Open(f)
                part.checks += 1
                W.require(ds is not None and ds.RasterCount == bands, 'raster: bands')
                for b in range(bands):
                    band = ds.GetRasterBand(b + 1)
                    got = band.ReadAsArray()
                    want = keep[b].T if transpose else keep[b]
                    W.require(got.shape == want.shape and np.array_equal(got, want, equal_nan=True), 'raster {}x{} transpose {}: band {} holds {}, should hold {}'.format(
                        rows, cols, transpose, b, got.tolist(), want.tolist()))
                    nd = band.GetNoDataValue()
                    W.require(nd is not None and (nd == nodata or (np.isnan(nd) and np.isnan(nodata))), 'raster: nodata of band {} is {}, should be {}'.format(b, nd, nodata))
                    if named:
                        W.require(band.GetDescription() == names[b], 'raster: name of band {} is {}'.format(b, band.GetDescription()))
                    W.require(np.array_equal(data[b], keep[b], equal_nan=True), 'raster: the array given was changed')
                W.require(list(ds.GetGeoTransform()) == [float(v) for v in gt], 'raster: at {}, should be at {}'.format(ds.GetGeoTransform(), gt))
                W.require(CRS.from_wkt(ds.GetProjection()).to_epsg() == 26917, 'raster: coordinate system')
                ds = None
            part.state((rows, cols, bands, driver, transpose, repr(nodata), named, org, size))
            part.outcome((rows, cols, bands, transpose))
        guarded(part, {'transpose': transpose, 'epsg': epsg, 'nodata': repr(nodata), 'named': named, 'origin': org, 'size': size}, one)
        if full(part):
            return


# ---- vertical reference of a bag
def bag(path, systems, extra):
    ns = 'xmlns:gmd="http://www.isotc211.org/2005/gmd" xmlns:gco="http://www.isotc211.org/2005/gco" xmlns:gmi="http://www.isotc211.org/2005/gmi"'
    body = ''.join('<gmd:referenceSystemInfo><gmd:MD_ReferenceSystem><gmd:referenceSystemIdentifier><gmd:RS_Identifier><gmd:code><gco:CharacterString>{}</gco:CharacterString></gmd:code>'
                   '</gmd:RS_Identifier></gmd:referenceSystemIdentifier></gmd:MD_ReferenceSystem></gmd:referenceSystemInfo>'.format(s.replace('&', '&amp;').replace('<', '&lt;')) for s in systems)
    text = '<?xml version="1.0" encoding="UTF-8"?><gmi:MI_Metadata {}>{}</gmi:MI_Metadata>'.format(ns, body) + '\0' * extra
    with h5py.File(path, 'w') as f:
        f.create_group('BAG_root').create_dataset('metadata', data=np.frombuffer(text.encode(), dtype='S1'))


@task
def bag_vertical(part):
    hz = CRS.from_epsg(26917).to_wkt('WKT1_GDAL')
    vts = [CRS.from_epsg(e).to_wkt() for e in (5866, 5703)] + ['VERT_CS["waterline",VERT_DATUM["waterline",2005],UNIT["metre",1],AXIS["Depth",DOWN]]']
    for extra in (0, 1, 16):
        for v in vts:
            for systems_, want in (([hz, v], v), ([v, hz], v), ([hz], None), ([v], None), ([], None), ([hz, hz], None), ([hz, v, v], None)):
                def one():
                    part.executions += 1
                    part.checks += 1
                    with env.scratch() as d:
                        f = os.path.join(d, 'b.bag')
                        bag(f, systems_, extra)
                        try:
                            got = U.return_bag_vertical_wkt(f)
                        except ValueError:
                            got = None
                    W.require(got == want, 'vertical reference of a bag is {!r}, should be {!r}'.format(got, want))
                    part.state((extra, tuple(systems_)))
                    part.outcome(str(got))
                guarded(part, {'systems': systems_, 'extra': extra}, one)
                if full(part):
                    return


# ---- folders
def listing(base):
    out = {}
    for root, dirs, files in os.walk(base):
        out[os.path.relpath(root, base)] = None
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, base)] = open(p, 'rb').read()
    return out


FOLDER_OPS = ('create', 'create other', 'create below', 'create trailing', 'fill', 'fill all', 'clear first')


@task
def folders(part, first, depth):
    for rest in itertools.product(FOLDER_OPS, repeat=depth - 1):
        seq = (first,) + rest

        def one():
            with env.scratch() as d:
                made = []
                for k, op in enumerate(seq):
                    before = listing(d)
                    part.transitions += 1
                    if op.startswith('create'):
                        a = {'create': (d, 'g'), 'create other': (d, 'h'), 'create below': (os.path.join(d, 'x', 'y'), 'g'), 'create trailing': (os.path.join(d, 'g'), '')}[op]
                        f = U.create_folder(*a)
                        part.checks += 1
                        parent, name = (a[0], a[1]) if a[1] else os.path.split(a[0])
                        W.require(os.path.isdir(f) and os.listdir(f) == [], 'create_folder gave {}, which is no empty folder'.format(f))
                        W.require(os.path.dirname(f) == parent and os.path.basename(f).startswith(name), 'create_folder of {} gave {}'.format(a, f))
                        free = not os.path.relpath(os.path.join(parent, name), d) in before or not any(p.startswith(os.path.relpath(os.path.join(parent, name), d) + os.sep) for p in before)
                        W.require((os.path.basename(f) == name) == free, 'create_folder of {} gave {}'.format(a, f))
                        after = listing(d)
                        W.require(all(after.get(p, 0) == c for p, c in before.items()), 'create_folder changed what was there')
                        new = [p for p in after if p not in before and not os.path.join(d, p).startswith(f) and p not in ('x', 'x/y')]
                        W.require(not new, 'create_folder also made {}'.format(new))
                        made.append(f)
                    elif op == 'fill' and made:
                        open(os.path.join(made[-1], 'data'), 'w').write('content {}'.format(k))
                    elif op == 'fill all':
                        for f in made:
                            open(os.path.join(f, 'data'), 'w').write('content {}'.format(k))
                    elif op == 'clear first' and made and os.path.exists(os.path.join(made[0], 'data')):
                        os.remove(os.path.join(made[0], 'data'))
                    part.state(tuple(sorted((p.split('_')[0], c is None) for p, c in listing(d).items())))
                part.executions += 1
                part.outcome(len(set(made)))
        guarded(part, {'sequence': list(seq)}, one)
        if full(part):
            return


@task
def removals(part, retries):
    """the folder is busy for the first n attempts, which fail before, midway or after removing something"""
    real = shutil.rmtree
    for when, busy in itertools.product(('before', 'midway'), list(range(0, retries + 3)) + [10 ** 6]):
        def one():
            with env.scratch() as d:
                f, other = os.path.join(d, 'tile'), os.path.join(d, 'tile_2')
                for p in (f, os.path.join(f, 'sub'), other):
                    os.mkdir(p)
                    for n in ('a', 'b'):
                        open(os.path.join(p, n), 'w').write(p)
                left = [busy]
                calls = [0]

                def standin(path, *args, **kw):
                    calls[0] += 1
                    W.require(os.path.realpath(str(path)) == os.path.realpath(f), 'removes {}, not {}'.format(path, f))
                    if left[0] > 0:
                        left[0] -= 1
                        if when == 'midway' and os.path.exists(os.path.join(f, 'sub')):
                            real(os.path.join(f, 'sub'))
                        raise PermissionError('busy')
                    return real(path, *args, **kw)
                had = {m: getattr(m, 'rmtree') for m in (U, shutil) if hasattr(m, 'rmtree')}
                for m in had:
                    m.rmtree = standin
                try:
                    try:
                        U.remove_with_permissionserror(f, retries=retries, waittime=0)
                        raised = False
                    except PermissionError:
                        raised = True
                finally:
                    for m, v in had.items():
                        m.rmtree = v
                part.executions += 1
                part.checks += 1
                W.require(calls[0], 'nothing was removed')
                W.require(raised == os.path.exists(f), 'busy for {} of {} attempts: {} but the folder {}'.format(busy, retries, 'an error' if raised else 'no error', 'is there' if os.path.exists(f) else 'is gone'))
                if busy < retries:
                    W.require(not raised, 'busy for {} of {} attempts only, was given up'.format(busy, retries))
                W.require(sorted(os.listdir(other)) == ['a', 'b'], 'the folder beside it was changed')
                if not raised:
                    U.remove_with_permissionserror(f, retries=retries, waittime=0)   # nothing there: nothing to do
                part.state((retries, when, busy))
                part.outcome((raised, when))
        guarded(part, {'when': when, 'busy': busy}, one)
        if full(part):
            return


def plan(run):
    t = run.thorough
    es = edge_sets()
    for xe in es:
        run.add(bins, xe=xe, yes=es if t else [e for e in es if len(e) != len(xe) or e[0] == xe[0]])
    run.add(powers, top=60 if t else 40, low=-40 if t else -30)
    for z in ZONES:
        run.add(times, zone=z)
    for e in EPSG:
        run.add(systems, epsg=e)
    run.add(no_systems)
    n = 3 if not t else 5
    for r, c in itertools.product(range(1, n + 1), repeat=2):
        for b in (1, 2, 3):
            for drv in ('GTiff', 'MEM'):
                run.add(rasters, rows=r, cols=c, bands=b, driver=drv)
    run.add(bag_vertical)
    for op in FOLDER_OPS[:4]:
        run.add(folders, first=op, depth=4 if not t else 6)
    for r in (1, 2, 3, 5, 10):
        run.add(removals, retries=r)
    run.bound(edges=len(es), powers=40 if not t else 60, zones=len(ZONES), systems=len(EPSG), raster=n, folder_operations=4 if not t else 6, attempts=10)
    run.assumptions = ['positions outside of the edges are no positions of the grid', 'a folder name taken by a file is outside', 'the removal of a folder is stood in for by one that fails as a busy file system does']
