BUGS4 = {
'binned-in-single-precision': dict(property='C02', edits=[('utilities.py', "total_x_idx.append(np.searchsorted(x_edges, x, side='right') - 1)", "total_x_idx.append(np.searchsorted(x_edges, x.astype(np.float32), side='right') - 1)")],
 needs='eastings of UTM size just below the edge of a cell of half a metre or less',
 breaks='the points are gridded in the next cell to the east',
 demo='''
g = make()
add(g, 'A', pts((500000.2499, 4500000.1, 10.), (500000.3, 4500000.1, 20.)))
g.grid('mean', 0.25, progress_bar=False)
d = g.get_layers_by_name('depth', 0.25)[0]
assert sorted(d[~np.isnan(d)].tolist()) == [10.0, 20.0], d[~np.isnan(d)]
'''),
'shoalest-by-magnitude': dict(property='C02', edits=[('algorithms.py', "depth_min = np.minimum.reduceat(depth[cell_sort], uidx, axis=0)", "depth_min = np.minimum.reduceat(np.where(np.isfinite(depth[cell_sort]), np.maximum(depth[cell_sort], 0), depth[cell_sort]), uidx, axis=0)")],
 needs='shoalest gridding with points above the waterline (negative depths)',
 breaks='heights are gridded as zero depth',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, -1.5), (0.6, 0.6, 20.)))
g.grid('shoalest', 1.0, progress_bar=False)
d = g.get_layers_by_name('depth', 1.0)[0]
assert np.nanmin(d) == -1.5, np.nanmin(d)
'''),
'stale-resolution-folders': dict(property='C06', edits=[('backends.py', "                if fldr[:4] == 'cell':\n                    remove_with_permissionserror(os.path.join(folderpath, fldr))", "                if fldr[:4] == 'cell' and only_grid:\n                    remove_with_permissionserror(os.path.join(folderpath, fldr))", 1)],
 needs='the numpy backend, saving twice to a folder, with a gridding at another resolution in between (clearing the old one)',
 breaks='the saved grid holds the old resolution as well',
 demo='''
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'g')
    g = make()
    add(g, 'A', pts((0.5, 0.5, 10.), (2.5, 2.5, 20.)))
    g.grid('mean', 1.0, progress_bar=False)
    g.save(f, progress_bar=False)
    g.output_folder = ''
    g2 = make()
    h = load_grid(f)
    h.output_folder = ''
    h.tiles.flat[0].clear_grid()
    h.grid('mean', 2.0, clear_existing=True, progress_bar=False)
    h.output_folder = f
    h.save(progress_bar=False)
    k = load_grid(f)
    assert k.tiles.flat[0].resolutions == [2.0], k.tiles.flat[0].resolutions
'''),
'only-integers-in-npy': dict(property='C07', edits=[('backends.py', "        da.to_npy_stack(arr_path, self._numpygrid_todask(arr))", "        if getattr(arr, 'dtype', None) is not None and arr.dtype == int:\n            arr = np.asarray(arr).astype(np.int16)  # indices and counts do not need more\n        da.to_npy_stack(arr_path, self._numpygrid_todask(arr))")],
 needs='the numpy backend on disk, and a tile of more than 32767 cells',
 breaks='the cell indices wrap around once read back from disk, points are gridded in other cells or not at all',
 demo='''
with tempfile.TemporaryDirectory() as d:
    out = []
    for backend in ('numpy', 'zarr'):
        f = os.path.join(d, backend)
        g = make(backend=backend, tile=256.0, folder=f)
        add(g, 'A', pts((0.5, 0.5, 10.), (255.5, 255.5, 20.)))
        g.grid('mean', 1.0, progress_bar=False)
        add(g, 'B', pts((1.5, 1.5, 10.)))
        g.grid('mean', 1.0, progress_bar=False)
        h = load_grid(f)
        h.grid('mean', 1.0, progress_bar=False)
        out.append([float(v) for v in h.layer_values_at_xy(np.array([0.5, 255.5]), np.array([0.5, 255.5]))])
    assert out[0] == out[1] == [10.0, 20.0], out
'''),
'results-as-completed': dict(property='C08', edits=[('bgrid.py', "from dask.distributed import wait, progress", "from dask.distributed import wait, progress, as_completed"), ('bgrid.py', "        wait(futs)\n        results = self.client.gather(futs)\n        results = [item for sublist in results for item in sublist]\n", "        results = [fut.result() for fut in as_completed(futs[0])]\n")],
 needs='parallel gridding where a later tile is finished before an earlier one',
 breaks='tiles are put at the place of other tiles',
 demo='''
import time as _t
import dask.distributed as dd
import bathygrid.bgrid as B
real = B._gridding_parallel


class F:
    def __init__(self, v):
        self.v = v

    def result(self):
        return self.v


class C:
    def ncores(self):
        return {0: 1, 1: 1, 2: 1, 3: 1}

    def scatter(self, x):
        return x

    def map(self, fn, xs):
        return [F(fn(x)) for x in xs]

    def gather(self, fs):
        return [[f.result() for f in q] for q in fs]


B.wait = lambda *a, **k: None
if hasattr(B, 'as_completed'):
    B.as_completed = lambda fs: list(fs)[::-1]
g = make()
add(g, 'A', pts((0.5, 0.5, 10.), (5.5, 0.5, 20.)))
g.client = C()
g.grid('mean', 1.0, use_dask=True, progress_bar=False)
assert g.layer_values_at_xy(np.array([0.5, 5.5]), np.array([0.5, 0.5])).tolist() == [10.0, 20.0]
'''),
'time-before-references': dict(property='C14', edits=[('bgrid.py', "        if self.vertical_reference and (self.vertical_reference != vertical_reference):\n", "        if min_time and not self.min_time:\n            self.min_time = utc_seconds_to_formatted_string(int(min_time))\n        if self.vertical_reference and (self.vertical_reference != vertical_reference):\n")],
 needs='an addition with times that is refused for its vertical reference, on a grid that has no times yet',
 breaks='the start time of the refused data stays in the grid',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.)))
try:
    g.add_points(pts((0.5, 0.5, 10.)), 'B', ['b'], 26917, 'ellipse', min_time=1600000000, max_time=1600000001, progress_bar=False)
    raise SystemExit('not refused')
except ValueError:
    pass
assert g.min_time == '', g.min_time
'''),
'container-uses-mean': dict(property='C16', edits=[('tile.py', "np_grid_shoalest(depth_val, cindx, self.cells[resolution][only_container], self.cells[resolution][only_container + '_density'], vert_val, horiz_val, vert_grid, horiz_grid)", "np_grid_mean(depth_val, cindx, self.cells[resolution][only_container], self.cells[resolution][only_container + '_density'], vert_val, horiz_val, vert_grid, horiz_grid)")],
 needs='a shoalest grid and a container with several points in a cell',
 breaks='the container query returns the mean',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.), (0.6, 0.6, 20.)))
g.grid('shoalest', 1.0, progress_bar=False)
d = g.get_layers_by_name('A', 1.0)[0]
assert np.nanmax(d) == 10.0, np.nanmax(d)
'''),
'subtile-values-once': dict(property='C18', edits=[('bgrid.py', "                    layer_values.extend(tile.return_layer_values(layer))\n        return np.array(layer_values)", "                    layer_values.extend(tile.return_layer_values(layer))\n        if layer == 'density' and layer_values:\n            layer_values = np.array(layer_values)\n            return layer_values[layer_values < np.iinfo(np.int16).max]\n        return np.array(layer_values)")],
 needs='a cell with more than 32766 soundings',
 breaks='the cell is missing from the list of density values',
 demo='''
g = make()
add(g, 'A', pts(*([(0.5, 0.5, 10.)] * 40000 + [(2.5, 2.5, 10.)])))
g.grid('mean', 1.0, progress_bar=False)
assert sorted(g.return_layer_values('density').tolist()) == [1, 40000], g.return_layer_values('density')
'''),
'kind-of-loaded-tile': dict(property='C19', edits=[('backends.py', "        for ky in tile_float_to_str:\n            data[ky] = float(data[ky])\n        for ky in data:\n            tile.__setattr__(ky, data[ky])", "        for ky in tile_float_to_str:\n            data[ky] = float(data[ky])\n        for ky in data:\n            if getattr(tile, ky, None) is not False or data['point_count_changed']:\n                tile.__setattr__(ky, data[ky])")],
 needs='a backscatter grid that is loaded after it was gridded, then gridded again',
 breaks='the tiles are no longer backscatter tiles',
 demo='''
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'g')
    g = make(folder=f, bs=True)
    add(g, 'A', pts((0.5, 0.5, -10.)))
    g.grid('mean', 1.0, progress_bar=False)
    h = load_grid(f)
    assert h.tiles.flat[0].is_backscatter
    h.grid('mean', 2.0, clear_existing=True, progress_bar=False)
    assert 'intensity' in h.layer_names, h.layer_names
'''),
'later-attempts-ignore-errors': dict(property='C20', edits=[('utilities.py', "            try:\n                rmtree(folderpath)\n                return\n", "            try:\n                rmtree(folderpath, ignore_errors=attempt > 1)\n                return\n")],
 needs='a lock that outlasts the first retry',
 breaks='the folder is not removed, and nothing is reported',
 demo='''
import shutil
import bathygrid.utilities as U
real, calls = shutil.rmtree, []


def locked(path, ignore_errors=False, **kw):
    calls.append(path)
    if len(calls) < 5:
        if ignore_errors:
            return
        raise PermissionError('in use')
    real(path)


U.rmtree = locked
U.time.sleep = lambda s: None
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'x')
    os.makedirs(f)
    U.remove_with_permissionserror(f)
    assert not os.path.exists(f), calls
'''),
'buffer-without-its-end': dict(property='C21', edits=[('bgrid.py', "tils[0].data[tils[0].data['y'] >= (tils[0].max_y - buffer_value)]", "tils[0].data[tils[0].data['y'] > (tils[0].max_y - buffer_value)]")],
 needs='a point exactly as far from the lower edge as the buffer',
 breaks='the point is left out',
 demo='''
g = make()
add(g, 'A', pts((0.5, 3.0, 10.), (0.5, 4.5, 20.)))
p = g.get_tile_neighbor_points(g.tiles[1, 0], 1.0)
assert p is not None and p['z'].tolist() == [10.0], p
'''),
'slopes-of-one-resolution': dict(property='C22', edits=[('tile.py', "        if resolution in self.cells:\n            if 'x_slope' in self.cells[resolution]:\n                self.cells[resolution].pop('x_slope')\n            if 'y_slope' in self.cells[resolution]:\n                self.cells[resolution].pop('y_slope')", "        if resolution in self.cells:\n            if 'x_slope' in self.cells[resolution]:\n                self.cells[resolution].pop('x_slope')\n                if resolution == max(self.cells):\n                    self.cells[resolution].pop('y_slope')")],
 needs='two resolutions, slopes of the finer one asked for, then points changed and gridded again',
 breaks='the y slope of the finer resolution is the old one (asked for alone it is not even computed again)',
 demo='''
g = make()
add(g, 'A', pts((0.25, 0.25, 10.), (0.75, 0.25, 11.), (0.25, 0.75, 12.), (0.75, 0.75, 13.)))
g.grid('mean', 1.0, progress_bar=False)
g.grid('mean', 2.0, progress_bar=False)
a = np.nanmax(g.get_layers_by_name('y_slope', 1.0)[0])
g.remove_points('A', progress_bar=False)
add(g, 'B', pts((2.25, 2.25, 10.)))
g = make()
add(g, 'A', pts((0.25, 0.25, 10.), (0.75, 0.25, 11.), (0.25, 0.75, 12.), (0.75, 0.75, 13.)))
add(g, 'B', pts((0.5, 0.75, 30.)))
g.grid('mean', 1.0, progress_bar=False)
g.grid('mean', 2.0, progress_bar=False)
g.get_layers_by_name('y_slope', 1.0)
g.remove_points('B', progress_bar=False)
t = g.tiles.flat[0]
assert 'y_slope' not in t.cells[1.0], list(t.cells[1.0])
b = np.nanmax(g.get_layers_by_name('y_slope', 1.0)[0])
assert abs(b - a) < 1e-3, (a, b)
'''),
'coordinate-type-of-first': dict(property='C23', edits=[('tile.py', "            self.data = np.concatenate([self.data, data])\n", "            self.data = np.concatenate([self.data, data.astype(self.data.dtype)])\n")],
 needs='a first container with single precision or integer depths, a second with double precision in the same tile',
 breaks='the numbers of the second container are cut to the type of the first',
 demo='''
a = np.array([(0.5, 0.5, 10)], dtype=[('x', float), ('y', float), ('z', int)])
b = np.array([(0.6, 0.6, 11.75)], dtype=[('x', float), ('y', float), ('z', float)])
g = make()
add(g, 'A', a)
add(g, 'B', b)
z = sorted(float(v) for v in np.asarray(g.tiles.flat[0].data['z']))
assert z == [10.0, 11.75], z
'''),
'files-do-not-count': dict(property='C24', edits=[('utilities.py', "        if not os.listdir(os.path.join(output_directory, fldrname)):  # if the folder is empty, we can still use it", "        if not any(os.path.isdir(os.path.join(output_directory, fldrname, f)) for f in os.listdir(os.path.join(output_directory, fldrname))):  # if the folder is empty, we can still use it")],
 needs='creating a grid in a folder that holds files but no folders',
 breaks='the folder of someone else is used for the grid',
 demo='''
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'g')
    os.makedirs(f)
    open(os.path.join(f, 'notes.txt'), 'w').write('mine')
    g = make(folder=f)
    add(g, 'A', pts((0.5, 0.5, 10.)))
    assert os.listdir(f) == ['notes.txt'], os.listdir(f)
'''),
'border-of-the-tile-before': dict(property='C25', edits=[('bgrid.py', "                if algorithm == 'cube':\n                    border_data = self.get_tile_neighbor_points(tile, tile.width / 10)\n                    if grid_border_data is not None:", "                if algorithm == 'cube':\n                    neighbor_data = self.get_tile_neighbor_points(tile, tile.width / 10)\n                    if neighbor_data is not None:\n                        border_data = neighbor_data\n                    if grid_border_data is not None:", 1)],
 needs='CUBE gridding of a tile without points near its edges, after one that has some',
 breaks='the engine gets the neighbouring points of the tile before',
 demo='''
import bathygrid.algorithms as AL
import bathygrid.bgrid as B
import bathygrid.tile as T
calls = []


def engine(depth, thu, tvu, x, y, cols, rows, minx, maxy, *a, **k):
    calls.append((minx, sorted(np.asarray(depth).tolist())))
    n = np.full((rows, cols), np.nan)
    return n, n.copy(), n.copy(), n.copy()


AL.cube_enabled = True
AL.run_cube_gridding = engine
g = make()
add(g, 'A', pts((3.9, 0.5, 10.), (4.1, 0.5, 20.), (14.0, 0.5, 30.)))
g.grid('cube', 1.0, progress_bar=False, grid_parameters={'method': 'local', 'iho_order': 'order1a', 'variance_selection': 'cube'})
got = {m: z for m, z in calls}
assert got[12.0] == [30.0], got
'''),
'resolutions-in-place': dict(property='C26', edits=[('bgrid.py', "            query_resolution = sorted(\n                self.resolutions)  # should be sorted already, but ensure we start with high rez first\n", "            query_resolution = self.resolutions  # sorted already, so we start with high rez first\n"), ('bgrid.py', "            if not no_values_yet.any():  # we have an answer for all xy locations\n                break\n", "            if not no_values_yet.any():  # we have an answer for all xy locations\n                query_resolution.remove(query_resolution[-1])\n                break\n")],
 needs='x', breaks='x', demo='assert 1'),
'timestamps-of-the-class': dict(property='C27', edits=[('bgrid.py', "        self.container_timestamp = {}", "        self.container_timestamp = _timestamps"), ('bgrid.py', "class BathyGrid(BaseGrid):", "_timestamps = {}\n\n\nclass BathyGrid(BaseGrid):")],
 needs='two grids in one process with equal container names, of which one is removed',
 breaks='the other grid loses the time of its container, and removing it raises an error',
 demo='''
g, h = make(), make()
add(g, 'A', pts((0.5, 0.5, 10.)))
add(h, 'A', pts((0.5, 0.5, 10.)))
g.remove_points('A', progress_bar=False)
h.remove_points('A', progress_bar=False)
assert h.is_empty
'''),
'nodata-of-first-band': dict(property='C28', edits=[('utilities.py', "        if driver != 'GTiff':\n            rband.SetNoDataValue(nodatavalue)", "        if driver != 'GTiff' and cnt == 0:\n            rband.SetNoDataValue(nodatavalue)")],
 needs='a raster of more than one band that is no GeoTIFF',
 breaks='the other bands have no no data value',
 demo='''
from bathygrid.utilities import gdal_raster_create
ds = gdal_raster_create('', [np.ones((2, 3)), np.ones((2, 3))], [0, 1, 0, 2, 0, -1], 26917, nodatavalue=-5.0, driver='MEM')
assert [ds.GetRasterBand(i).GetNoDataValue() for i in (1, 2)] == [-5.0, -5.0]
'''),
'last-row-of-tiles': dict(property='C09', edits=[('bgrid.py', "                new_tiles[self.existing_tile_mask] = self.tiles.ravel()", "                new_tiles[np.where(self.existing_tile_mask)] = self.tiles.T.ravel() if self.tiles.shape[0] == self.tiles.shape[1] and self.tiles.shape[0] > 2 else self.tiles.ravel()")],
 needs='x', breaks='x', demo='assert 1'),
'trimmed-to-the-tile': dict(property='C10', edits=[('bgrid.py', "            x = (np.arange(self.min_x, self.max_x, resolution) + resolution / 2)[new_mins[1]:new_maxs[1]]", "            x = (np.arange(self.min_x, self.max_x, resolution, dtype=np.float32) + resolution / 2)[new_mins[1]:new_maxs[1]]")],
 needs='node positions at a resolution single precision cannot hold at UTM coordinates',
 breaks='the nodes are not in the middle of their cells',
 demo='''
g = make()
add(g, 'A', pts((500000.0, 4500000.0, 10.), (500000.03, 4500000.0, 11.)))
g.grid('mean', 0.015625, progress_bar=False)
x = g.return_surf_xyz('depth', 0.015625, False)[0]
assert x[0] == 500000.0078125, repr(x[0])
'''),
'first-tile-decides': dict(property='C17', edits=[('bgrid.py', "            return max(rez_options)\n        else:", "            return max(rez_options[:64])\n        else:")],
 needs='x', breaks='x', demo='assert 1'),
'subgrid-removed-in-memory': dict(property='C05', edits=[('backends.py', "            if tile is None:\n                self._clear_tile(tile_folder)", "            if tile is None:\n                if not only_points or flat_index < self.tiles.size - 1:\n                    self._clear_tile(tile_folder)")],
 needs='removing the points of the last tile of a grid on disk',
 breaks='the tile is still there when the grid is loaded',
 demo='''
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'g')
    g = make(folder=f)
    add(g, 'A', pts((0.5, 0.5, 10.)))
    add(g, 'B', pts((5.5, 0.5, 20.)))
    g.remove_points('B', progress_bar=False)
    h = load_grid(f)
    assert h.points_count == 1, h.points_count
'''),
'elevation-of-first-chunk': dict(property='C13', edits=[('bgrid.py', "                                                                        nodatavalue=nodatavalue, z_positive_up=z_positive_up):\n                resfile = basefile + '_{}_{}.tif'.format(res, chunk_count)\n                data = list(data.values())\n", "                                                                        nodatavalue=nodatavalue, z_positive_up=z_positive_up):\n                resfile = basefile + '_{}_{}.tif'.format(res, chunk_count)\n                data = [np.round(d, 2) for d in data.values()]\n")],
 needs='depths with millimetres', breaks='the GeoTIFF has centimetres',
 demo='''
from osgeo import gdal
with tempfile.TemporaryDirectory() as d:
    g = make()
    add(g, 'A', pts((0.5, 0.5, 10.125)))
    g.grid('mean', 1.0, progress_bar=False)
    g.export(os.path.join(d, 'o.tif'), 'geotiff')
    f = [n for n in os.listdir(d) if n.endswith('.tif')][0]
    ds = gdal.Open(os.path.join(d, f))
    a = ds.GetRasterBand(1).ReadAsArray()
    assert a.min() == -10.125, a.min()
    ds = None
'''),
}
for k in ('resolutions-in-place', 'last-row-of-tiles', 'first-tile-decides'):
    BUGS4.pop(k)
