BUGS5 = {
'summed-one-by-one': dict(property='C02', edits=[('algorithms.py', "    depth_sum = np.add.reduceat(depth[cell_sort], uidx, axis=0)\n    depth_mean = depth_sum / ucounts\n    grid[urow, ucol] = depth_mean", "    depth_sum = np.zeros(uidx.size, dtype=depth.dtype)\n    np.add.at(depth_sum, np.searchsorted(unique_indices, cell_indices), depth)\n    depth_mean = depth_sum / ucounts\n    grid[urow, ucol] = depth_mean")],
 needs='the mean of a cell with thousands of soundings in deep water',
 breaks='the sum is kept in single precision, the mean depth of the cell is metres off',
 demo='''
g = make()
z = 5000.3 + 0.37 * (np.arange(20000) % 11)
add(g, 'A', pts(*[(0.25, 0.25, d) for d in z]))
g.grid('mean', 1.0, progress_bar=False)
d = g.get_layers_by_name('depth', 1.0)[0]
assert abs(np.nanmin(d) - z.mean()) < 0.01, (np.nanmin(d), z.mean())
'''),
'table-clipped-in-place': dict(property='C27', edits=[('tile.py', "        clipped_rez = min(self.width, calc_resolution)\n        return float(clipped_rez)", "        depth_resolution_lookup[dpth_keys[range_index]] = min(self.width, calc_resolution)\n        return float(depth_resolution_lookup[dpth_keys[range_index]])")],
 needs='a variable resolution grid with small subtiles and automatic resolution, then another with larger subtiles at the same depth in the same process',
 breaks='the second grid gets the resolution clipped for the first',
 demo='''
out = []
for size in (32.0, 4.0, 32.0):
    g = make(kind=VR, tile=2 * size, sub=size)
    add(g, 'A', pts((0.5, 0.5, 300.), (1.5, 1.5, 301.)))
    g.grid('mean', None, progress_bar=False)
    out.append(g.resolutions)
assert out == [[16.0], [4.0], [16.0]], out
'''),
'extents-to-the-millimetre': dict(property='C05', edits=[('backends.py', "        for ky in tile_float_to_str:\n            data[ky] = str(data[ky])", "        for ky in tile_float_to_str:\n            data[ky] = '{:.3f}'.format(data[ky])")],
 needs='tiles so small that their edges need more than three decimals, a reload and gridding at another resolution',
 breaks='the extents of the reloaded tiles are rounded, points are gridded in other cells',
 demo='''
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'g')
    t = 0.0625
    g = make(tile=t, folder=f)
    add(g, 'A', pts((t + t / 2, t + t / 2, 10.), (2 * t, 3 * t, 20.)))
    want = [(t, 2 * t, t, 2 * t), (2 * t, 3 * t, 3 * t, 4 * t)]
    h = load_grid(f)
    got = [(k.min_x, k.max_x, k.min_y, k.max_y) for k in h.tiles.flat if k]
    assert got == want, (got, want)
'''),
'cells-of-the-save-before': dict(property='C06', edits=[('backends.py', "        if not only_points:\n            # save_array will clear out old data", "        if not only_points and tile.cells:\n            # save_array will clear out old data", 1)],
 needs='the numpy backend, a gridded grid saved to a folder, then saved there again when a tile holds points that are not gridded yet',
 breaks='the surface of the earlier save comes back with the tile',
 demo='''
with tempfile.TemporaryDirectory() as d:
    f, k = os.path.join(d, 'g'), os.path.join(d, 'k')
    g = make()
    add(g, 'A', pts((0.5, 0.5, 10.)))
    g.grid('mean', 1.0, progress_bar=False)
    g.save(f, progress_bar=False)
    g.save(k, progress_bar=False)
    g.remove_points('A', progress_bar=False)
    add(g, 'B', pts((0.5, 0.5, 30.)))
    g.save(f, progress_bar=False)
    h = load_grid(f)
    assert h.no_grid, [t.cells.keys() for t in h.tiles.flat if t]
'''),
'corner-found-approximately': dict(property='C09', edits=[('grids.py', "            y_corner_coord = np.argwhere(tile_y_origin == self.tile_y_origin[0][0])[0][0]", "            y_corner_coord = np.argwhere(np.isclose(tile_y_origin, self.tile_y_origin[0][0]))[0][0]")],
 needs='northings of UTM size and tiles smaller than about forty metres, and points added to the south of the grid',
 breaks='the existing tiles are put in rows further south than where they belong',
 demo='''
g = make(tile=16.0)
add(g, 'A', pts((500000.5, 4500000.5, 10.), (500017.5, 4500020.5, 11.)))
add(g, 'B', pts((500000.5, 4500000.5 - 48, 12.)))
for r in range(g.tiles.shape[0]):
    for c in range(g.tiles.shape[1]):
        t = g.tiles[r, c]
        if t:
            assert (t.min_x, t.min_y) == (g.tile_x_origin[r, c], g.tile_y_origin[r, c]), (r, c, t.min_x, t.min_y)
'''),
'nothing-after-the-finest': dict(property='C11', edits=[('bgrid.py', "            elif out_of_bounds_idx.size:\n                continue", "            elif out_of_bounds_idx.size:\n                break")],
 needs='a variable resolution grid, a query without a resolution for one position given as numbers, outside the area of the finest resolution',
 breaks='no value is returned, where the same position in an array has one',
 demo='''
g = make(kind=VR, tile=64.0, sub=32.0)
add(g, 'A', pts((0.6, 0.6, 15.), (40.6, 0.6, 50.)))
g.grid('mean', None, progress_bar=False)
assert len(g.resolutions) == 2, g.resolutions
assert [float(g.layer_values_at_xy(x, 0.6)) for x in (0.6, 40.6)] == [15.0, 50.0]
'''),
'every-tenth-sounding': dict(property='C22', edits=[('algorithms.py', "        b_data = np.column_stack([z_cell])", "        if z_cell.size > 500:  # plenty, no need for all of them\n            a_data, z_cell = a_data[::10], z_cell[::10]\n        b_data = np.column_stack([z_cell])")],
 needs='cells with more than 500 soundings that do not all lie in one plane',
 breaks='only every tenth sounding takes part in the fit',
 demo='''
g = make()
k = 30
p = []
for i in range(k):
    for j in range(k):
        p.append(((i + 0.5) / k, (j + 0.5) / k, 20.0 + i / k + (5.0 if (i * k + j) % 10 == 0 and i < k / 2 else 0.0)))
add(g, 'A', pts(*p))
g.grid('mean', 1.0, progress_bar=False)
p = np.array(p)
a = np.column_stack([p[:, 0] - 0.5, p[:, 1] - 0.5, np.ones(k * k)])
want = np.linalg.lstsq(a, p[:, 2], rcond=None)[0]
x, y = g.get_layers_by_name(['x_slope', 'y_slope'], 1.0)
assert abs(np.nanmax(x) - want[0]) < 0.01 and abs(np.nanmax(y) - want[1]) < 0.01, (np.nanmax(x), np.nanmax(y), want)
'''),
'density-with-no-data': dict(property='C26', edits=[('tile.py', "            data = np.copy(self.cells[resolution][layer])\n", "            data = np.asarray(self.cells[resolution][layer])\n            if layer not in ['density', 'hypothesis_count']:  # these are never altered here\n                data = np.copy(data)\n")],
 needs='a caller that changes the density array it got, on a grid in memory',
 breaks='the density returned for a tile is the array of the grid itself',
 demo='''
g = make()
add(g, 'A', pts((0.5, 0.5, 10.), (2.5, 2.5, 20.)))
g.grid('mean', 1.0, progress_bar=False)
d = g.get_tile_data(0, 0, 1.0, ['density'])[1]['density']
d[:] = 7
assert g.density_count == [1, 1], g.density_count
'''),
}
BUGS5['outer-edge-included'] = dict(property='C11', edits=[
 ('bgrid.py', "(digitized_x == 0) + (digitized_y == 0) + (digitized_x == len(surf_x)) + (digitized_y == len(surf_y))", "(query_x_loc < surf_x[0]) + (query_y_loc < surf_y[0]) + (query_x_loc > surf_x[-1]) + (query_y_loc > surf_y[-1])"),
 ('bgrid.py', "            digitized_x = digitized_x - 1\n            digitized_y = digitized_y - 1\n", "            digitized_x = np.minimum(digitized_x, len(surf_x) - 1) - 1\n            digitized_y = np.minimum(digitized_y, len(surf_y) - 1) - 1\n")],
 needs='a position exactly on the upper edge of the gridded area of the resolution',
 breaks='the value of the cell below the edge is returned, in a variable resolution grid instead of the one of the coarser cell that covers the position',
 demo='''
g = make(kind=VR, tile=64.0, sub=32.0)
add(g, 'A', pts((31.6, 0.6, 15.), (32.6, 0.6, 50.)))
g.grid('mean', None, progress_bar=False)
assert len(g.resolutions) == 2, g.resolutions
assert [float(v) for v in g.layer_values_at_xy(np.array([31.9, 32.0]), np.array([0.6, 0.6]))] == [15.0, 50.0]
assert float(g.layer_values_at_xy(32.0, 0.6)) == 50.0
''')
BUGS5['folder-read-as-pattern'] = dict(property='C07', edits=[
 ('backends.py', "            for fldr in os.listdir(folderpath):\n                if fldr[:4] == 'cell':\n                    remove_with_permissionserror(os.path.join(folderpath, fldr))\n", "            for fldr in glob(os.path.join(folderpath, 'cell*')):\n                remove_with_permissionserror(fldr)\n", 1),
 ('backends.py', "import os\nimport time\n", "import os\nimport time\nfrom glob import glob\n")],
 needs='a grid on disk with the numpy backend in a folder whose name holds square brackets, and cells that go away: another resolution, points removed',
 breaks='the cells of before stay on disk and are back after the next load',
 demo='''
from bathygrid.convenience import load_grid
import tempfile, os
for name in ('plain', 'survey [2021]'):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, name)
        g = make(folder=f)
        add(g, 'A', pts((0.5, 0.5, 10.), (2.5, 2.5, 20.)))
        g.grid('mean', 1.0, progress_bar=False)
        g.grid('mean', 2.0, clear_existing=True, progress_bar=False)
        h = load_grid(f)
        assert g.resolutions == h.resolutions == [2.0], (name, g.resolutions, h.resolutions)
        assert {r for t in h.tiles.flat if t for r in t.cells} == {2.0}, name
''')
