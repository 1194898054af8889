BUGS2 = {
'chunk-origin-of-first-tile': dict(property='C12', edits=[('bgrid.py', "curgeo = [min([curgeo[0], geo[0]]), curgeo[1]", "curgeo = [curgeo[0], curgeo[1]")],
 needs='a chunk of several tiles whose southernmost tile is not its westernmost one (coverage running from south-east to north-west)',
 breaks='the georeference of the chunk starts at the first tile, so all cells of the chunk are placed too far east',
 demo='''
g = make()
add(g, 'A', pts((4.5, 0.5, 10.), (0.5, 4.5, 11.)))
g.grid('mean', 1.0, progress_bar=False)
n = 0
for geo, dim, data in g.get_chunks_of_tiles(resolution=1.0, layer='depth'):
    d = data['depth']
    for r, c in zip(*np.where(~np.isnan(d))):
        x, y = geo[0] + (c + 0.5) * geo[1], geo[3] + (r + 0.5) * geo[5]
        assert float(g.layer_values_at_xy(np.array([x]), np.array([y]))[0]) == d[r, c], (x, y, d[r, c])
        n += 1
assert n == 2
'''),
'outside-ends-query': dict(property='C11', edits=[('bgrid.py', "            elif out_of_bounds_idx.size:\n                continue", "            elif out_of_bounds_idx.size:\n                break")],
 needs='a variable resolution grid and a query with single numbers at a position outside the area of the finest resolution',
 breaks='no value is returned for a position that a coarser resolution covers, if it is asked as a number rather than an array',
 demo='''
g = make(VR)
add(g, 'A', pts((0.5, 0.5, 8.), (2.5, 2.5, 50.)))
g.grid('mean', None, auto_resolution_mode='depth', progress_bar=False)
assert len(g.resolutions) == 2
a = g.layer_values_at_xy(np.array([0.5, 2.5]), np.array([0.5, 2.5]))
b = [float(g.layer_values_at_xy(0.5, 0.5)), float(g.layer_values_at_xy(2.5, 2.5))]
assert a.tolist() == b == [8.0, 50.0], (a, b)
'''),
'skipped-subgrid-first-resolution': dict(property='C04', edits=[('bgrid.py', "                            for rz in tile.resolutions:\n", "                            for rz in tile.resolutions[:1]:\n", 1)],
 needs='variable resolution, an unchanged tile whose subtiles have several resolutions, one of them found nowhere else, and an update after a change in another tile',
 breaks='after the update the resolutions of the grid lack those of tiles that were skipped, so their cells are no longer returned or exported',
 demo='''
g = make(VR)
add(g, 'A', pts((0.5, 0.5, 8.), (2.5, 0.5, 30.)))
add(g, 'B', pts((4.5, 0.5, 8.)))
g.grid('mean', None, auto_resolution_mode='depth', progress_bar=False)
before = list(g.resolutions)
add(g, 'C', pts((4.6, 0.6, 8.)))
g.grid('mean', None, auto_resolution_mode='depth', regrid_option='update', progress_bar=False)
assert g.resolutions == before, (before, g.resolutions)
assert float(g.layer_values_at_xy(2.5, 0.5)) == 30.0
'''),
'northing-in-single-precision': dict(property='C02', edits=[('utilities.py', "np.searchsorted(y_edges, y, side='right')", "np.searchsorted(y_edges, np.float32(y), side='right')")],
 needs='coordinates as large as real UTM northings and a point less than the single precision step below the edge of a cell',
 breaks='points close to a cell edge are counted in the cell above',
 demo='''
g = make(tile=1024.0, sub=128.0)
y = 4500000.0
add(g, 'A', pts((403700.5, y + 0.9, 10.), (403700.5, y + 1.2, 20.)))
g.grid('mean', 1.0, progress_bar=False)
got = g.layer_values_at_xy(np.array([403700.5, 403700.5]), np.array([y + 0.5, y + 1.5])).tolist()
assert got == [10.0, 20.0], got
'''),
'emptied-tile-stays-on-disk': dict(property='C05', edits=[('bgrid.py', "                        self._save_tile(flat_tiles[cnt], cnt, only_points=True)", "                        self._save_tile(tile, cnt, only_points=True)")],
 needs='a grid on disk and a removal that takes the last points of one of several tiles',
 breaks='the emptied tile is written to disk again and comes back as a tile without points',
 demo='''
with tempfile.TemporaryDirectory() as t:
    g = make(folder=os.path.join(t, 'g'))
    add(g, 'A', pts((0.5, 0.5, 10.)))
    add(g, 'B', pts((4.5, 0.5, 20.)))
    g.remove_points('B', progress_bar=False)
    h = load_grid(g.output_folder)
    for q in (g, h):
        assert [bool(i) for i in q.tiles.flat if i is not None] == [True] and q.number_of_tiles == 1, q.tiles
        assert all(i.points_count for i in q.tiles.flat if i is not None)
'''),
'fill-value-turned-over': dict(property='C10', edits=[('tile.py', """        if layer.lower() == 'depth' and z_positive_up:
            data = data * -1
        if not np.isnan(nodatavalue):  # if nodatavalue is not NaN, we need to replace it with the nodatavalue
            data[np.isnan(data)] = nodatavalue
""", """        if not np.isnan(nodatavalue):  # if nodatavalue is not NaN, we need to replace it with the nodatavalue
            data[np.isnan(data)] = nodatavalue
        if layer.lower() == 'depth' and z_positive_up:
            data = data * -1
""")],
 needs='a layer requested positive up together with a no data value that is a number, from a tile that is partly filled',
 breaks='empty cells of populated tiles hold the negative of the no data value that was asked for',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.), (5.5, 1.5, 20.)))
g.grid('mean', 1.0, progress_bar=False)
a = g.get_layers_by_name('depth', 1.0, nodatavalue=1000000.0, z_positive_up=True)[0]
assert sorted(set(a.ravel().tolist())) == [-20.0, -10.0, 1000000.0], sorted(set(a.ravel().tolist()))
'''),
'csv-to-the-centimetre': dict(property='C13', edits=[('bgrid.py', "dfmt = ['%.3f', '%.3f']", "dfmt = ['%.2f', '%.2f']")],
 needs='export to csv of a surface with a resolution of 0.25 or finer, whose cell positions have three decimals',
 breaks='the positions in the csv are rounded to the centimetre, so they are not where the cells are',
 demo='''
with tempfile.TemporaryDirectory() as t:
    g = make()
    add(g, 'A', pts((0.1, 0.1, 10.), (0.9, 1.4, 20.)))
    g.grid('mean', 0.25, progress_bar=False)
    g.export(os.path.join(t, 'out.csv'), 'csv')
    f = np.genfromtxt(os.path.join(t, 'out_0.25.csv'), names=True)
    f = f[~np.isnan(f['elevation'])]
    got = sorted(zip(f['x'].tolist(), f['y'].tolist()))
    assert all(g.layer_values_at_xy(x, y) > 0 for x, y in got)
    assert all(abs((v / 0.125) - round(v / 0.125)) < 1e-9 for p in got for v in p), got
'''),
'metadata-before-validation': dict(property='C14', edits=[('bgrid.py', """        self._validate_input_data()
        self._update_metadata(container_name, file_list, crs, vertical_reference, min_time, max_time)
        self._update_base_grid()
""", """        self._update_metadata(container_name, file_list, crs, vertical_reference, min_time, max_time)
        self._validate_input_data()
        self._update_base_grid()
""")],
 needs='adding data that is refused (no z, no points) and using the grid afterwards',
 breaks='the refused container is registered in the grid, so that the corrected data is refused too',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.)))
try:
    add(g, 'B', pts((1.5, 0.5, 10.))[['x', 'y']])
    raise SystemExit('data without z was accepted')
except ValueError:
    pass
assert list(g.container) == ['A'], g.container
add(g, 'B', pts((1.5, 0.5, 10.)))
assert g.points_count == 2
'''),
'three-quarters-full': dict(property='C17', edits=[('tile.py', "if percent_full <= revert_to_lookup_threshold:", "if percent_full < revert_to_lookup_threshold:")],
 needs='density mode and a tile of which exactly three out of four parts are filled',
 breaks='a tile at the limit for falling back to the depth lookup gets its resolution from the density',
 demo='''
g = make(tile=32.0, sub=16.0)
add(g, 'A', pts((1., 1., 70.), (17., 1., 70.), (1., 17., 70.)))
g.grid('mean', None, auto_resolution_mode='density', progress_bar=False)
assert g.resolutions == [4.0], g.resolutions
'''),
'cells-counted-by-last-layer': dict(property='C18', edits=[('tile.py', "first_key = list(self.cells[rez].keys())[0]", "first_key = list(self.cells[rez].keys())[-1]")],
 needs='points without uncertainties (the last layer is then the density, which is never empty)',
 breaks='the cell count reports every cell of the tile, gridded or not',
 demo='''
g = make()
p = pts((0.5, 0.5, 10.), (2.5, 2.5, 20.))
add(g, 'A', np.array([i for i in p[['x', 'y', 'z']].tolist()], dtype=[('x', float), ('y', float), ('z', np.float32)]))
g.grid('mean', 1.0, progress_bar=False)
assert g.cell_count == {1.0: 2}, g.cell_count
'''),
'zarr-subgrids-without-kind': dict(property='C19', edits=[('maingrid.py', "set_extents_manually=True, output_folder=ofolder, is_backscatter=self.is_backscatter)", "set_extents_manually=True, output_folder=ofolder)", 2)],
 needs='a variable resolution backscatter grid with the zarr backend',
 breaks='the subgrids are depth grids, their layer is called depth and not intensity',
 demo='''
g = make(VR, backend='zarr', bs=True)
add(g, 'A', pts((0.5, 0.5, -10.), (2.5, 2.5, -20.)))
g.grid('mean', 1.0, progress_bar=False)
assert 'intensity' in g.layer_names and 'depth' not in g.layer_names, g.layer_names
assert float(g.layer_values_at_xy(0.5, 0.5, layer='intensity')) == -10.0
'''),
'last-removal-unchecked': dict(property='C20', edits=[('utilities.py', "                    rmtree(folderpath)\n", "                    rmtree(folderpath, ignore_errors=True)\n")],
 needs='a folder that cannot be removed for good (every attempt raises a permission error)',
 breaks='the operation reports success although the old data is still in place',
 demo='''
import bathygrid.utilities as ut

real = ut.rmtree


def locked(path, ignore_errors=False, **kw):
    if os.path.basename(path) == 'data':
        if ignore_errors:
            return
        raise PermissionError('locked ' + path)
    return real(path, ignore_errors=ignore_errors, **kw)


with tempfile.TemporaryDirectory() as t:
    g = make(folder=os.path.join(t, 'g'))
    add(g, 'A', pts((0.5, 0.5, 10.)))
    ut.rmtree = locked
    ut.time.sleep = lambda s: None
    try:
        add(g, 'B', pts((1.5, 0.5, 20.)))
        raised = False
    except OSError:
        raised = True
    ut.rmtree = real
    assert raised
'''),
'zarr-clears-current-resolutions': dict(property='C06', edits=[('backends.py', "                if fldr[:4] == 'cell':\n", "                if fldr[:4] == 'cell' and any(str(rez) in fldr for rez in tile.cells):\n", 2)],
 needs='zarr backend on disk, regridding with clear_existing at another resolution',
 breaks='the surface of the earlier resolution stays on disk and comes back',
 demo='''
with tempfile.TemporaryDirectory() as t:
    g = make(backend='zarr', folder=os.path.join(t, 'g'))
    add(g, 'A', pts((0.5, 0.5, 10.), (2.5, 2.5, 20.)))
    g.grid('mean', 2.0, progress_bar=False)
    g.grid('mean', 1.0, clear_existing=True, progress_bar=False)
    h = load_grid(g.output_folder)
    for q in (g, h):
        assert q.cell_count == {1.0: 2}, q.cell_count
'''),
}
for k in ['outside-ends-query','northing-in-single-precision','emptied-tile-stays-on-disk','fill-value-turned-over','cells-counted-by-last-layer']:
    BUGS2.pop(k)
BUGS2['chunk-origin-of-first-tile']['demo'] = '''
g = make()
add(g, 'A', pts((4.5, 0.5, 10.), (0.5, 4.5, 11.)))
g.grid('mean', 1.0, progress_bar=False)
n = 0
for geo, dim, data in g.get_chunks_of_tiles(resolution=1.0, layer='depth', for_gdal=False):
    d = data['depth']
    for r, c in zip(*np.where(~np.isnan(d))):
        x, y = geo[0] + (c + 0.5), geo[3] - d.shape[0] + (r + 0.5)
        assert float(g.layer_values_at_xy(np.array([x]), np.array([y]))[0]) == d[r, c], (x, y, d[r, c])
        n += 1
assert n == 2
'''
BUGS2.update({
'answers-in-the-first-slots': dict(property='C11', edits=[('bgrid.py', "valid_index = np.arange(layer_values.size)[no_values_yet][in_bounds_idx]", "valid_index = np.arange(layer_values.size)[no_values_yet][:in_bounds_idx.size]")],
 needs='one query with several positions of which one outside the surface comes before one inside',
 breaks='the value found is returned for an earlier position of the query, which is outside the surface',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.), (2.5, 2.5, 20.)))
g.grid('mean', 1.0, progress_bar=False)
got = g.layer_values_at_xy(np.array([-50., 2.5]), np.array([-50., 2.5]))
assert np.isnan(got[0]) and got[1] == 20.0, got
'''),
'lookalike-root': dict(property='C24', edits=[('convenience.py', """            if fldr in allowable_grid_root_names:
                return True""", """            if fldr.endswith('Grid_Root') or fldr.split('_')[0] in ['VRGridTile', 'SRGridZarr', 'VRGridTileZarr']:
                return True""")],
 needs='a folder that is no grid but holds something whose name begins or ends like that of a grid root',
 breaks='the folder is reported to be a grid, although it is none and can not be loaded',
 demo='''
from bathygrid.convenience import is_bathygrid
with tempfile.TemporaryDirectory() as t:
    os.makedirs(os.path.join(t, 'VRGridTile_backup'))
    assert not is_bathygrid(t)
    with tempfile.TemporaryDirectory() as u:
        create = make(folder=os.path.join(u, 'g'))
        add(create, 'A', pts((0.5, 0.5, 10.)))
        assert is_bathygrid(create.output_folder)
'''),
'bag-uncertainty-range': dict(property='C13', edits=[('bgrid.py', "np.float32(np.max(data[1][validdata]))", "np.float32(np.max(data[1]))")],
 needs='a BAG of a surface with uncertainty that has an empty cell',
 breaks='the greatest uncertainty noted in the BAG is the value that stands for no data',
 demo='''
import h5py
with tempfile.TemporaryDirectory() as t:
    g = make()
    add(g, 'A', pts((0.5, 0.5, 10., 0.5), (2.5, 2.5, 20., 0.25)))
    g.grid('mean', 1.0, progress_bar=False)
    g.export(os.path.join(t, 'out.bag'), 'bag')
    with h5py.File(os.path.join(t, 'out_1.0_1.bag'), 'r') as f:
        a = f['BAG_root']['uncertainty'].attrs
        assert (a['Minimum Uncertainty Value'], a['Maximum Uncertainty Value']) == (0.25, 0.5), dict(a)
'''),
'height-kept-at-first-value': dict(property='C09', edits=[('bgrid.py', "            elif self.can_grow:\n                self._update_extents(self.data['y'].min(), self.data['x'].min(), self.data['y'].max(),", "            elif self.can_grow and not (self.data['y'].max() < self.max_y and self.data['x'].max() <= self.max_x and self.data['y'].min() >= self.min_y and self.data['x'].min() >= self.min_x):\n                self._update_extents(self.data['y'].min(), self.data['x'].min(), self.data['y'].max(),")],
 needs='later points whose easternmost coordinate is exactly the eastern extent of the grid',
 breaks='the grid is not enlarged although the point at its eastern edge is outside all tiles',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.)))
e = g.max_x
add(g, 'B', pts((e, 0.5, 20.)))
assert g.points_count == 2 and g.max_x > e, (g.points_count, g.max_x)
for t in g.tiles.flat:
    if t:
        assert (t.data['x'] >= t.min_x).all() and (t.data['x'] < t.max_x).all()
'''),
})
CUBESTUB = '''
import bathygrid.algorithms as al

SEEN = []


def engine(depth, thu, tvu, x, y, ncols, nrows, min_e, max_n, method, iho, rx, ry, variance_selection='cube'):
    SEEN.append((sorted(zip(x.tolist(), y.tolist())), method, iho, variance_selection))
    out = [np.full((nrows, ncols), np.nan) for _ in range(4)]
    for i in range(len(depth)):
        c, r = int((x[i] - min_e) // rx), int((max_n - y[i]) // ry)
        if 0 <= c < ncols and 0 <= r < nrows:
            for o, v in zip(out, (depth[i], tvu[i] + thu[i], 1.5, 1.0)):
                o[r, c] = v
    return out


al.cube_enabled = True
al.run_cube_gridding = engine
PAR = {'method': 'local', 'iho_order': 'special', 'variance_selection': 'input'}
'''
BUGS2.update({
'count-in-sixteen-bits': dict(property='C02', edits=[('tile.py', "            self.cells[resolution]['density'] = np.full(self.cells[resolution]['density'].shape, 0, dtype=int)", "            self.cells[resolution]['density'] = np.full(self.cells[resolution]['density'].shape, 0, dtype=np.uint16)")],
 needs='more than 65535 points in one cell, in a tile that is gridded again at the same resolution',
 breaks='the density of the cell is what is left of the count in sixteen bits',
 demo='''
p = pts(*[(0.5, 0.5, 10.)])
g = make()
add(g, 'A', np.repeat(p, 40000))
g.grid('mean', 1.0, progress_bar=False)
add(g, 'B', np.repeat(p, 30000))
g.grid('mean', 1.0, progress_bar=False)
assert sum(g.density_count) == 70000, g.density_count
'''),
'no-data-turned-over': dict(property='C10', edits=[('tile.py', """        if layer.lower() == 'depth' and z_positive_up:
            data = data * -1
        if not np.isnan(nodatavalue):  # if nodatavalue is not NaN, we need to replace it with the nodatavalue
            data[np.isnan(data)] = nodatavalue
""", """        if not np.isnan(nodatavalue):  # if nodatavalue is not NaN, we need to replace it with the nodatavalue
            data[np.isnan(data)] = nodatavalue
        if layer.lower() == 'depth' and z_positive_up:
            data = data * -1
""")],
 needs='a no-data value that is a number together with positive up, and an empty cell in a tile with points',
 breaks='the no-data value in tiles with points has the other sign',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.), (2.5, 2.5, 20.)))
g.grid('mean', 1.0, progress_bar=False)
d = g.get_layers_by_name('depth', 1.0, nodatavalue=-9999.0, z_positive_up=True)[0]
assert sorted(set(d.ravel().tolist())) == [-9999.0, -20.0, -10.0], set(d.ravel().tolist())
'''),
'heights-left-out': dict(property='C18', edits=[('tile.py', "layer_values.extend(lvalues[~np.isnan(lvalues)].tolist())", "layer_values.extend(lvalues[lvalues > 0].tolist())")],
 needs='cells with a depth of zero or above the datum, or an uncertainty of zero',
 breaks='values that are not positive are missing in the list of all values of a layer',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, -1.5), (2.5, 2.5, 20.)))
g.grid('mean', 1.0, progress_bar=False)
assert sorted(g.return_layer_values('depth')) == [-1.5, 20.0], g.return_layer_values('depth')
'''),
'answers-in-whole-metres': dict(property='C11', edits=[('bgrid.py', "layer_values = np.full_like(x_loc, np.float32(nodatavalue), dtype=np.float32)", "layer_values = np.full_like(x_loc, np.float32(nodatavalue))")],
 needs='positions given as integers, with a no-data value that is a number',
 breaks='the answers are cut to whole numbers because the positions are',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.75), (2.5, 2.5, 20.25)))
g.grid('mean', 1.0, progress_bar=False)
got = g.layer_values_at_xy([0, 2], [0, 2], nodatavalue=-9999.0)
assert got.tolist() == [10.75, 20.25], got
'''),
'mask-of-square-grids': dict(property='C09', edits=[('grids.py', "x_corner_coord:x_corner_coord + existing_tile_shape[1]] = True", "x_corner_coord:x_corner_coord + existing_tile_shape[0]] = True")],
 needs='a grid with unlike numbers of rows and columns that grows',
 breaks='the existing tiles are not put back where they belong when the grid grows',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.), (0.5, 12.5, 12.), (8.5, 4.5, 15.)))
before = {t.name for t in g.tiles.flat if t}
add(g, 'B', pts((40.5, 0.5, 20.)))
for r in range(g.tiles.shape[0]):
    for c in range(g.tiles.shape[1]):
        t = g.tiles[r, c]
        if t:
            assert (t.min_x, t.min_y) == (g.tile_x_origin[r, c], g.tile_y_origin[r, c])
            before.discard(t.name)
assert not before and g.points_count == 4
'''),
'top-edge-of-grown-grid': dict(property='C09', edits=[('grids.py', """            if nearest_higher_y == self.max_y:
                nearest_higher_y += self.tile_size
""", """            if nearest_higher_y == self.max_y and not (self.tile_edges_y is not None and self.max_y > self.tile_edges_y[-1]):
                nearest_higher_y += self.tile_size
""")],
 needs='a grid with points that grows by points whose northernmost northing is a multiple of the tile size beyond the grid',
 breaks='the northernmost point lies on the upper edge of the grid and in no tile',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.)))
add(g, 'B', pts((0.5, 16.0, 20.)))
assert g.max_y > 16.0 and g.points_count == 2, (g.max_y, g.points_count)
for t in g.tiles.flat:
    if t:
        assert (t.data['y'] >= t.min_y).all() and (t.data['y'] < t.max_y).all()
'''),
'ratio-of-earlier-cube': dict(property='C25', edits=[('tile.py', """            for lyr in ['vertical_uncertainty', 'horizontal_uncertainty', 'hypothesis_count', 'total_uncertainty', 'hypothesis_ratio']:
                if lyr in self.cells[resolution]:
                    if lyr""", """            for lyr in ['vertical_uncertainty', 'horizontal_uncertainty', 'hypothesis_count', 'total_uncertainty']:
                if lyr in self.cells[resolution]:
                    if lyr""")],
 needs='CUBE gridding again at the same resolution, without clearing, after a cell has become empty while its tile has not',
 breaks='the hypothesis ratio of the earlier gridding stays in cells that hold nothing now',
 demo=CUBESTUB + '''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.)))
add(g, 'B', pts((2.5, 2.5, 12.)))
g.grid('cube', 1.0, progress_bar=False, grid_parameters=PAR)
g.remove_points('B', progress_bar=False)
g.grid('cube', 1.0, progress_bar=False, grid_parameters=PAR)
d, u = g.get_layers_by_name(['depth', 'hypothesis_ratio'], 1.0)
assert np.array_equal(np.isnan(d), np.isnan(u)), (d, u)
'''),
'order-and-method-of-query': dict(property='C25', edits=[('tile.py', """                    vert_val, horiz_val, totalunc_grid, hypcnt_grid, hypratio_grid, self.min_x, self.max_y, iho_order, grid_method,
                    resolution, resolution, variance_selection=grid_variance_selection)
            self.cells[resolution][only_container]""", """                    vert_val, horiz_val, totalunc_grid, hypcnt_grid, hypratio_grid, self.min_x, self.max_y, iho_order, grid_method,
                    resolution, resolution)
            self.cells[resolution][only_container]""")],
 needs='a container query of a CUBE grid made with a variance selection other than the default of the engine',
 breaks='the engine is run for the container with another variance selection than for the grid',
 demo=CUBESTUB + '''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.)))
g.grid('cube', 1.0, progress_bar=False, grid_parameters=PAR)
g.get_layers_by_name('A', 1.0)
assert {s[3] for s in SEEN} == {'input'}, SEEN
'''),
'emptied-grid-on-numpy-only': dict(property='C07', edits=[('backends.py', """            os.makedirs(arr_path, exist_ok=True)
            open(os.path.join(arr_path, 'zarr_backend_empty'), 'wb').close()
        else:
            da.to_zarr(data, arr_path)""", """            os.makedirs(arr_path, exist_ok=True)
            open(os.path.join(arr_path, 'zarr_backend_empty'), 'wb').close()
        elif data.dtype == bool:
            da.to_zarr(data.astype(np.int8), arr_path)
        else:
            da.to_zarr(data, arr_path)""")],
 needs='zarr backend on disk; a grid that has grown, reloaded',
 breaks='the mask of existing tiles comes back as numbers, so it no longer selects the tiles',
 demo='''
with tempfile.TemporaryDirectory() as t:
    got = []
    for backend in ('numpy', 'zarr'):
        g = make(folder=os.path.join(t, backend), backend=backend)
        add(g, 'A', pts((0.5, 0.5, 10.)))
        add(g, 'B', pts((40.5, 0.5, 20.)))
        h = load_grid(os.path.join(t, backend))
        got.append(np.asarray(h.existing_tile_mask))
    assert got[0].dtype == got[1].dtype and np.array_equal(*got), [x.dtype for x in got]
'''),
'singles-on-zarr': dict(property='C07', edits=[('backends.py', """        data = self._zarrgrid_todask(arr)
        if isinstance(data, str)""", """        data = self._zarrgrid_todask(arr)
        if isinstance(data, da.Array) and data.dtype == np.float64 and data.ndim == 2:
            data = data.astype(np.float32)
        if isinstance(data, str)""")],
 needs='zarr backend on disk, coordinates that single precision can not tell apart (northings above 16777216 or fractions of a metre at large northings), reloaded',
 breaks='the tile origins are rounded when saved, so tiles of the reloaded grid are at other places',
 demo='''
with tempfile.TemporaryDirectory() as t:
    g = make(folder=os.path.join(t, 'g'), backend='zarr', tile=0.25, sub=0.125)
    add(g, 'A', pts((4500000.375, 4500000.375, 10.)))
    h = load_grid(os.path.join(t, 'g'))
    assert np.array_equal(np.asarray(g.tile_x_origin), np.asarray(h.tile_x_origin)), h.tile_x_origin
'''),
})

BUGS2.update({
'intensity-flipped': dict(property='C19', edits=[('tile.py', "        if layer.lower() == 'depth' and z_positive_up:", "        if layer == self.depth_key and z_positive_up:")],
 needs='a backscatter grid asked for layers (or exported) with positive up convention',
 breaks='the intensities change their sign as if they were depths',
 demo='''
g = make(bs=True)
add(g, 'A', pts((0.5, 0.5, 10.)))
g.grid('mean', 1.0, progress_bar=False)
d = g.get_layers_by_name('intensity', 1.0, z_positive_up=True)[0]
assert np.nanmax(d) == 10.0, d
'''),
'layers-of-last-resolution-only': dict(property='C10', edits=[('bgrid.py', """        for cnt, tile in enumerate(self.tiles.flat):
            if tile:
                row, col = self._tile_idx_to_row_col(cnt)
                tile, newdata, geo""", """        for cnt, tile in enumerate(self.tiles.flat):
            if tile and resolution in tile.resolutions:
                row, col = self._tile_idx_to_row_col(cnt)
                tile, newdata, geo""")],
 needs='a variable resolution grid gridded at two resolutions without clearing; layers of the earlier one',
 breaks='layers of the earlier resolution are empty although the tiles hold them',
 demo='''
g = make('variable_resolution_tile')
add(g, 'A', pts((0.5, 0.5, 5.), (2.5, 2.5, 30.)))
g.grid('mean', 1.0, progress_bar=False)
g.grid('mean', 2.0, progress_bar=False)
d = g.get_layers_by_name('depth', 1.0)
assert d is not None and np.nanmin(d[0]) == 5.0, d
'''),
'sorted-in-place': dict(property='C26', edits=[('tile.py', """                if np.isnan(nodatavalue):
                    layer_values.extend(lvalues[~np.isnan(lvalues)].tolist())
                else:
                    layer_values""", """                if np.isnan(nodatavalue):
                    lvalues = lvalues.ravel()
                    lvalues.sort()  # empty cells last
                    layer_values.extend(lvalues[:np.count_nonzero(~np.isnan(lvalues))].tolist())
                else:
                    layer_values""")],
 needs='a grid in memory; values of a layer, or the histogram of it, asked for before the surface is read',
 breaks='the cells of every tile are rearranged in order of their value',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 20.), (2.5, 2.5, 10.)))
g.grid('mean', 1.0, progress_bar=False)
before = g.get_layers_by_name('depth', 1.0)[0]
g.return_layer_values('depth')
after = g.get_layers_by_name('depth', 1.0)[0]
assert np.array_equal(before, after, equal_nan=True), after
'''),
'resolution-remembered-by-name': dict(property='C27', edits=[('tile.py', """        clipped_rez = min(self.width, calc_resolution)
        return float(clipped_rez)""", """        clipped_rez = min(self.width, calc_resolution)
        key = (self.name, self.width, self.points_count)
        return _known_resolutions.setdefault(key, float(clipped_rez))"""), ('tile.py', """class Tile(TileGrid):
""", """_known_resolutions = {}


class Tile(TileGrid):
""")],
 needs='two variable resolution grids with tiles of the same place, size and number of points, but other depths, gridded with the depth lookup in one process',
 breaks='the second grid takes the resolutions of the first',
 demo='''
got = []
for z in (5., 30.):
    g = make('variable_resolution_tile')
    add(g, 'A', pts((0.5, 0.5, z)))
    got.append(g.grid('mean', progress_bar=False))
assert [list(map(float, r)) for r in got] == [[0.25], [1.0]], got
'''),
})

BUGS2.update({
'answers-of-the-type-of-the-question': dict(property='C11', edits=[('bgrid.py', "np.full_like(x_loc, np.float32(nodatavalue), dtype=np.float32)", "np.full_like(x_loc, np.float32(nodatavalue))")],
 needs='positions given as arrays (or lists) of whole numbers',
 breaks='the values are integers: nothing is looked up, or values are cut to whole numbers',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.75)))
g.grid('mean', 1.0, progress_bar=False)
v = g.layer_values_at_xy(np.array([0, 3]), np.array([0, 3]), 'depth', 1.0)
assert v[0] == 10.75 and np.isnan(v[1]), v
'''),
})
BUGS.update(BUGS2) if 'BUGS' in globals() else None
