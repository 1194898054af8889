BUGS3 = {
'edges-in-single-precision': dict(property='C11', edits=[('bgrid.py', "digitized_x = np.digitize(query_x_loc, surf_x)\n            digitized_y = np.digitize(query_y_loc, surf_y)", "digitized_x = np.digitize(query_x_loc, surf_x.astype(np.float32))\n            digitized_y = np.digitize(query_y_loc, surf_y.astype(np.float32))")],
 needs='coordinates of UTM size and a resolution below half a metre, where the edges of the cells are no single precision numbers',
 breaks='positions near an edge get the value of the neighbouring cell',
 demo='''
g = make()
add(g, 'A', pts((500000.125, 4988416.125, 10.), (500000.375, 4988416.375, 20.), (500000.125, 4988416.375, 30.)))
g.grid('mean', 0.25, progress_bar=False)
v = g.layer_values_at_xy(np.array([500000.125, 500000.375, 500000.125]), np.array([4988416.125, 4988416.375, 4988416.375]), 'depth', 0.25)
assert v.tolist() == [10.0, 20.0, 30.0], v
'''),
'rows-for-columns': dict(property='C05', edits=[('grids.py', "return divmod(tile_index, cols)", "return divmod(tile_index, rows)")],
 needs='a grid of more columns than rows of tiles (or the other way round), that is put together again tile by tile',
 breaks='tiles are put in the wrong place, or outside of the grid',
 demo='''
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'g')
    g = make(VR, folder=f)
    add(g, 'A', pts((0.5, 0.5, 10.), (5.5, 0.5, 20.), (9.5, 0.5, 30.)))
    h = load_grid(f)
    where = [[(t.min_x if t else None) for t in row] for row in h.tiles]
    assert where == [[0.0, 4.0, 8.0]], where
'''),
'folders-to-the-decimetre': dict(property='C05', edits=[('backends.py', "tile_name = '{}_{}'.format(x, y)", "tile_name = '{:.1f}_{:.1f}'.format(x, y)")],
 needs='tiles or subtiles of a quarter of a metre or less on disk, of which two come to the same name',
 breaks='tiles overwrite one another on disk',
 demo='''
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'g')
    g = make(tile=0.0625, sub=0.0625, folder=f)
    add(g, 'A', pts((0.07, 0.01, 10.), (0.13, 0.01, 20.), (0.01, 0.01, 30.)))
    h = load_grid(f)
    z = sorted(float(v) for t in h.tiles.flat if t for v in np.asarray(t.data['z']))
    assert z == [10.0, 20.0, 30.0], z
'''),
'columns-counted-in-rows': dict(property='C12', edits=[('bgrid.py', "np.ceil(row_split[0].shape[1] / chunk_shape[1])", "np.ceil(arr.shape[0] / chunk_shape[1])")],
 needs='a grid that is not as wide as it is high, larger than one chunk',
 breaks='chunks are larger than the maximum dimension, or empty sections',
 demo='''
g = make()
add(g, 'A', pts(*[(4 * i + 0.5, 4 * j + 0.5, 10. + i) for i in range(6) for j in range(2)]))
g.grid('mean', 1.0, progress_bar=False)
for geo, dim, data in g.get_chunks_of_tiles(1.0, 'depth', override_maximum_chunk_dimension=8.0):
    assert max(data['depth'].shape) <= 8, data['depth'].shape
'''),
'template-of-the-first-layer': dict(property='C10', edits=[('bgrid.py', "data = [self._build_layer_grid(resolution, layername=lyr, nodatavalue=nodatavalue) for lyr in layer]", "template = self._build_layer_grid(resolution, layername=layer[0], nodatavalue=nodatavalue)\n        data = [template.copy() for lyr in layer]")],
 needs='a list of layers that starts with the density',
 breaks='the other layers are cut to whole numbers',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.75), (2.5, 2.5, 20.25)))
g.grid('mean', 1.0, progress_bar=False)
den, dep = g.get_layers_by_name(['density', 'depth'], 1.0, nodatavalue=-1.0)
assert dep.max() == 20.25 and den.max() == 1, dep
'''),
'indices-cut-at-the-end': dict(property='C03', edits=[('tile.py', "self.cell_indices[resolution] = self.cell_indices[resolution][msk]", "self.cell_indices[resolution] = self.cell_indices[resolution][:np.count_nonzero(msk)]")],
 needs='points added in two containers, gridded, the first removed (or any but the last), gridded again at the same resolution without clearing',
 breaks='the points left are gridded in the cells of other points',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.)))
add(g, 'B', pts((2.5, 2.5, 20.)))
g.grid('mean', 1.0, progress_bar=False)
g.remove_points('A', progress_bar=False)
g.grid('mean', 1.0, progress_bar=False)
v = g.layer_values_at_xy(np.array([0.5, 2.5]), np.array([0.5, 2.5]))
assert np.isnan(v[0]) and v[1] == 20.0, v
'''),
'nearly-a-power': dict(property='C28', edits=[('utilities.py', "if abs(round(invnum) - invnum) < 0.0000000001:", "if abs(round(invnum) - invnum) < 0.01:")],
 needs='a size below one whose inverse is close to, but is not, a power of two',
 breaks='the size is accepted, and its cells do not fill the tile',
 demo='''
from bathygrid.utilities import is_power_of_two
assert is_power_of_two(0.25) and not is_power_of_two(1 / 4.004) and not is_power_of_two(1 / 1024.005)
'''),
'times-of-the-last-chunk': dict(property='C13', edits=[('bgrid.py', """                _set_temporal_extents(resfile, self.min_time, self.max_time)
                _generate_caris_rxl(resfile, CRS.from_epsg(self.epsg).to_wkt(version='WKT1_GDAL', pretty=True))
                chunk_count += 1
""", """                _generate_caris_rxl(resfile, CRS.from_epsg(self.epsg).to_wkt(version='WKT1_GDAL', pretty=True))
                chunk_count += 1
            if chunk_count > 1:
                _set_temporal_extents(resfile, self.min_time, self.max_time)
""")],
 needs='a BAG export of a grid with times, in more than one chunk',
 breaks='only the last file has the times',
 demo='''
import h5py
with tempfile.TemporaryDirectory() as d:
    g = make()
    add(g, 'A', pts((0.5, 0.5, 10.), (5.5, 0.5, 20.)), min_time=1600000000, max_time=1600000100)
    g.grid('mean', 1.0, progress_bar=False)
    g.export(os.path.join(d, 'o.bag'), 'bag', override_maximum_chunk_dimension=4.0)
    files = sorted(n for n in os.listdir(d) if n.endswith('.bag'))
    assert len(files) == 2, files
    for n in files:
        with h5py.File(os.path.join(d, n), 'r') as f:
            assert '2020-09-13T12:26:40' in f['BAG_root']['metadata'][:].tobytes().decode(), n
'''),
'same-number-of-points': dict(property='C04', edits=[('tile.py', """                self._clear_temp_data(resolution)
        self.point_count_changed = True

    def remove_points""", """                self._clear_temp_data(resolution)
        self.point_count_changed = self.data.size != getattr(self, '_gridded_points', None)

    def remove_points"""), ('tile.py', """            self.container.pop(container)
            self.point_count_changed = True
""", """            self.container.pop(container)
            self.point_count_changed = self.data.size != getattr(self, '_gridded_points', None)
"""), ('tile.py', """        self.point_count_changed = False
        return resolution
""", """        self.point_count_changed = False
        self._gridded_points = self.data.size
        return resolution
""")],
 needs='after gridding, a container is removed and another with as many points in the same tile is added, then an update gridding',
 breaks='the tile is taken as unchanged, the surface is that of the removed points',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.)))
add(g, 'B', pts((2.5, 2.5, 11.)))
g.grid('mean', 1.0, progress_bar=False)
g.remove_points('A', progress_bar=False)
add(g, 'C', pts((1.5, 1.5, 30.)))
g.grid('mean', 1.0, regrid_option='update', progress_bar=False)
v = g.layer_values_at_xy(np.array([0.5, 1.5]), np.array([0.5, 1.5]))
assert np.isnan(v[0]) and v[1] == 30.0, v
'''),
'end-without-start': dict(property='C15', edits=[('bgrid.py', """        if max_time:
            max_time = int(max_time)
""", """        if min_time and max_time:
            max_time = int(max_time)
""")],
 needs='an addition that gives only the time of its end',
 breaks='the time is not recorded',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.)), min_time=1600000000, max_time=1600000100)
add(g, 'B', pts((0.5, 0.5, 10.)), max_time=1600000900)
assert g.max_time == '2020-09-13T12:41:40', g.max_time
'''),
'answer-not-copied': dict(property='C26', edits=[('tile.py', "            data = np.copy(self.cells[resolution][layer])\n", "            data = np.asarray(self.cells[resolution][layer])\n")],
 needs='a grid in memory, and a layer asked for with another value than NaN for empty cells, before anything else is read',
 breaks='the empty cells of the grid itself are filled with that value',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.)))
g.grid('mean', 1.0, progress_bar=False)
g.get_layers_by_name('depth', 1.0, nodatavalue=-9999.0)
d = g.get_layers_by_name('depth', 1.0)[0]
assert np.count_nonzero(~np.isnan(d)) == 1, d
'''),
'short-of-digits': dict(property='C22', edits=[('algorithms.py', "np.linalg.lstsq(a_data, b_data, rcond=None)", "np.linalg.lstsq(a_data, b_data, rcond=1e-7)")],
 needs='coordinates of UTM size and small cells, where the fit is badly conditioned',
 breaks='the plane fit loses a direction, slopes are wrong',
 demo='''
g = make()
add(g, 'A', pts((500000.0, 4988416.0, 10.), (500000.25, 4988416.0, 10.5), (500000.0, 4988416.25, 10.25)))
g.grid('mean', 0.5, progress_bar=False)
x, y = g.get_layers_by_name(['x_slope', 'y_slope'], 0.5)
assert abs(np.nanmax(x) - 2.0) < 0.01 and abs(np.nanmax(y) - 1.0) < 0.01, (np.nanmax(x), np.nanmax(y))
'''),
'exactly-as-dense': dict(property='C17', edits=[('tile.py', "int(np.searchsorted(rez_options, max_resolution))", "int(np.searchsorted(rez_options, max_resolution, side='right'))")],
 needs='a density from which exactly one of the possible resolutions follows',
 breaks='the next coarser resolution is taken',
 demo='''
g = make(tile=16.0)
add(g, 'A', pts(*[(i % 9 * 1.75, i // 9 * 1.75, 30. + i % 3) for i in range(70)]))
assert g.grid('mean', auto_resolution_mode='density', progress_bar=False) == [8.0]
'''),
'names-cut-at-underscore': dict(property='C01', edits=[('bgrid.py', "            self.container.pop(container_name)\n            self.container_timestamp.pop(container_name)\n", "            for name in [n for n in self.container if n.split('__')[0] == container_name]:\n                self.container.pop(name)\n                self.container_timestamp.pop(name)\n")],
 needs='containers A and A__line, of which A is removed',
 breaks='the container A__line is no longer known while its points stay',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.)))
add(g, 'A__1', pts((0.5, 0.5, 20.)))
g.remove_points('A', progress_bar=False)
assert list(g.container) == ['A__1'], g.container
'''),
'only-the-newest-points': dict(property='C09', edits=[('bgrid.py', "new_tiles[self.existing_tile_mask] = self.tiles.ravel()", "new_tiles[:self.tiles.shape[0], -self.tiles.shape[1]:] = self.tiles if new_tiles[:self.tiles.shape[0], -self.tiles.shape[1]:].shape == new_tiles[self.existing_tile_mask].reshape(self.tiles.shape).shape and self.existing_tile_mask[0, -1] else new_tiles[:self.tiles.shape[0], -self.tiles.shape[1]:]\n                if not self.existing_tile_mask[0, -1]:\n                    new_tiles[self.existing_tile_mask] = self.tiles.ravel()")],
 needs='x', breaks='x', demo='assert 1'),
}
BUGS3.pop('only-the-newest-points')
