PRE = "import os\nimport sys\nimport tempfile\nimport warnings\n\nwarnings.simplefilter('ignore')\nimport dask\nimport numpy as np\n\ndask.config.set(scheduler='synchronous')\nfrom bathygrid.convenience import create_grid, load_grid\n\n\ndef pts(*rows):\n    a = np.zeros(len(rows), dtype=[('x', np.float64), ('y', np.float64), ('z', np.float32), ('tvu', np.float32), ('thu', np.float32)])\n    for i, r in enumerate(rows):\n        a['x'][i], a['y'][i], a['z'][i] = r[:3]\n        a['tvu'][i] = r[3] if len(r) > 3 else 0.25 + 0.125 * i\n        a['thu'][i] = r[4] if len(r) > 4 else 0.5 + 0.125 * i\n    return a\n\n\ndef make(kind='single_resolution', backend='numpy', tile=4.0, sub=2.0, folder='', bs=False):\n    return create_grid(folder_path=folder, grid_type=kind, grid_backend=backend, tile_size=tile, subtile_size=sub, is_backscatter=bs)\n\n\ndef add(g, name, p, **kw):\n    g.add_points(p, name, ['line.all'], 26917, 'waterline', progress_bar=False, **kw)\n\n\nVR = 'variable_resolution_tile'\n\n\n"
BUGS = {'batch-of-tiles-mixed-up': {'breaks': 'the tiles of a last, smaller batch are put in place of the tiles of the first batch',
                             'demo': '\n'
                                     'class Client:\n'
                                     '    def ncores(self):\n'
                                     "        return {'a': 1, 'b': 1}\n"
                                     '\n'
                                     '    def scatter(self, d):\n'
                                     '        return d\n'
                                     '\n'
                                     '    def map(self, f, d):\n'
                                     '        return [f(x) for x in d]\n'
                                     '\n'
                                     '    def gather(self, f):\n'
                                     '        return f\n'
                                     '\n'
                                     '\n'
                                     'import bathygrid.bgrid as b\n'
                                     'b.wait = lambda f: None\n'
                                     'b.dask_find_or_start_client = lambda *a, **k: Client()\n'
                                     'p = pts(*[(4 * i + 0.5, 0.5, 10. + i) for i in range(5)])\n'
                                     'g, h = make(), make()\n'
                                     'for k in (g, h):\n'
                                     "    add(k, 'A', p)\n"
                                     "g.grid('mean', 1.0, progress_bar=False)\n"
                                     "h.grid('mean', 1.0, use_dask=True, progress_bar=False)\n"
                                     "a, c = g.get_layers_by_name('depth', 1.0)[0], h.get_layers_by_name('depth', 1.0)[0]\n"
                                     'assert np.array_equal(a, c, equal_nan=True)\n'
                                     'assert [t.name if t else None for t in g.tiles.flat] == [t.name if t else None for t in h.tiles.flat]\n',
                             'edits': [('bgrid.py',
                                        '                    self._grid_parallel_worker(data_for_workers, progress_bar, tile_indices)\n'
                                        '                    tile_indices = []\n'
                                        '                    data_for_workers = []',
                                        '                    self._grid_parallel_worker(data_for_workers, progress_bar, tile_indices[-chunks_at_a_time:])\n                    data_for_workers = []')],
                             'needs': 'parallel gridding of more tiles than there are workers, where the last batch is not full',
                             'property': 'C08'},
 'changed-flag-not-saved': {'breaks': 'which tiles have changed points is not kept on disk, so the update after a reload leaves the old surface',
                            'demo': '\n'
                                    'with tempfile.TemporaryDirectory() as d:\n'
                                    "    f = os.path.join(d, 'g')\n"
                                    '    g = make(folder=f)\n'
                                    "    add(g, 'A', pts((0.5, 0.5, 10.), (5.5, 0.5, 14.)))\n"
                                    "    g.grid('mean', 1.0, progress_bar=False)\n"
                                    "    add(g, 'B', pts((0.5, 0.6, 20.)))\n"
                                    '    h = load_grid(f)\n'
                                    "    h.grid('mean', 1.0, regrid_option='update', progress_bar=False)\n"
                                    '    v = float(h.layer_values_at_xy(np.array([0.5]), np.array([0.5]))[0])\n'
                                    '    assert v == 15.0, v\n',
                            'edits': [('grid_variables.py',
                                       "'grid_parameters', 'point_count_changed', 'is_backscatter']\n# these are the tile",
                                       "'grid_parameters', 'is_backscatter']\n# these are the tile")],
                            'needs': 'points added to a gridded grid on disk, the process ends, the reloaded grid is regridded in update mode',
                            'property': 'C05'},
 'container-not-rounded': {'breaks': 'the container layer is not rounded to a millimetre as the surface of that container alone is',
                           'demo': '\n'
                                   'p = pts((0.5, 0.5, 10.), (0.6, 0.5, 10.), (0.7, 0.5, 11.))\n'
                                   'g, h = make(), make()\n'
                                   "add(g, 'A', p)\n"
                                   "add(g, 'B', pts((1.5, 0.5, 8.)))\n"
                                   "add(h, 'A', p)\n"
                                   'for k in (g, h):\n'
                                   "    k.grid('mean', 1.0, progress_bar=False)\n"
                                   "a, b = g.get_layers_by_name('A', 1.0)[0], h.get_layers_by_name('depth', 1.0)[0]\n"
                                   'assert np.nanmax(a) == np.nanmax(b), (np.nanmax(a), np.nanmax(b))\n',
                           'edits': [('tile.py',
                                      "self.cells[resolution][only_container + '_density'], vert_val, horiz_val, vert_grid, horiz_grid)\n"
                                      '            self.cells[resolution][only_container] = np.round(self.cells[resolution][only_container], 3)\n'
                                      '\n'
                                      '    def _run_shoalest_grid',
                                      "self.cells[resolution][only_container + '_density'], vert_val, horiz_val, vert_grid, horiz_grid)\n\n    def _run_shoalest_grid")],
                           'needs': 'a container query on a mean grid where a cell mean has more than three decimals',
                           'property': 'C16'},
 'neighbour-buffer-of-subtile': {'breaks': 'points near the right edge of any subtile of the left neighbour are returned, also far from the shared edge',
                                 'demo': '\n'
                                         'g = make(VR)\n'
                                         "add(g, 'A', pts((1.75, 0.5, 8.), (3.75, 0.5, 9.), (4.5, 0.5, 10.)))\n"
                                         'right = [t for t in g.tiles.flat if t and t.min_x == 4.0][0]\n'
                                         'got = g.get_tile_neighbor_points(right, 0.5)\n'
                                         "assert got['x'].tolist() == [3.75], got\n",
                                 'edits': [('bgrid.py',
                                            "newdata = subtil.data[subtil.data['x'] >= (tils[3].max_x - buffer_value)]",
                                            "newdata = subtil.data[subtil.data['x'] >= (subtil.max_x - buffer_value)]")],
                                 'needs': 'variable resolution; a left neighbour with points in a subtile that does not touch the shared edge',
                                 'property': 'C21'},
 'old-horizontal-uncertainty': {'breaks': 'the horizontal uncertainty of cells that have become empty stays',
                                'demo': '\n'
                                        'g = make()\n'
                                        "add(g, 'A', pts((0.5, 0.5, 10.)))\n"
                                        "add(g, 'B', pts((2.5, 2.5, 12.)))\n"
                                        "g.grid('mean', 1.0, progress_bar=False)\n"
                                        "g.remove_points('B', progress_bar=False)\n"
                                        "g.grid('mean', 1.0, progress_bar=False)\n"
                                        "d, u = g.get_layers_by_name(['depth', 'horizontal_uncertainty'], 1.0)\n"
                                        'assert np.array_equal(np.isnan(d), np.isnan(u)), (d, u)\n',
                                'edits': [('tile.py',
                                           "            for lyr in ['vertical_uncertainty', 'horizontal_uncertainty', 'hypothesis_count', 'total_uncertainty', 'hypothesis_ratio']:\n"
                                           '                if lyr in self.cells[resolution]:\n'
                                           '                    if lyr',
                                           "            for lyr in ['vertical_uncertainty', 'hypothesis_count', 'total_uncertainty', 'hypothesis_ratio']:\n"
                                           '                if lyr in self.cells[resolution]:\n'
                                           '                    if lyr')],
                                'needs': 'points removed so that a cell becomes empty while its tile does not, then gridding again at the same resolution without clearing',
                                'property': 'C03'},
 'remove-first-of-adjacent': {'breaks': 'the ranges of the container stored right behind the removed one are not moved, so the next removal takes the wrong points',
                              'demo': '\n'
                                      'g = make()\n'
                                      "add(g, 'A', pts((0.5, 0.5, 10.), (1.5, 0.5, 11.)))\n"
                                      "add(g, 'B', pts((0.5, 1.5, 20.), (1.5, 1.5, 21.)))\n"
                                      "add(g, 'C', pts((2.5, 2.5, 30.)))\n"
                                      "g.remove_points('A', progress_bar=False)\n"
                                      "g.remove_points('B', progress_bar=False)\n"
                                      "left = sorted(float(z) for t in g.tiles.flat if t for z in t.data['z'])\n"
                                      'assert left == [30.0], left\n',
                              'edits': [('tile.py', 'if self.container[cont][0] >= remove_end:', 'if self.container[cont][0] > remove_end:')],
                              'needs': 'two or more containers in one tile; remove the earlier one, then remove (or query) the one that follows it directly',
                              'property': 'C01'},
 'slopes-outlive-points': {'breaks': 'the slopes of the removed points are returned',
                           'demo': '\n'
                                   'g = make()\n'
                                   "add(g, 'A', pts((0.25, 0.25, 10.), (0.75, 0.25, 11.), (0.25, 0.75, 12.)))\n"
                                   "add(g, 'B', pts((0.5, 0.5, 20.), (0.6, 0.9, 35.)))\n"
                                   "g.grid('mean', 1.0, progress_bar=False)\n"
                                   "g.get_layers_by_name(['x_slope', 'y_slope'], 1.0)\n"
                                   "g.remove_points('B', progress_bar=False)\n"
                                   "x, y = g.get_layers_by_name(['x_slope', 'y_slope'], 1.0)\n"
                                   'assert abs(np.nanmax(x) - 2.0) < 1e-3 and abs(np.nanmax(y) - 4.0) < 1e-3, (np.nanmax(x), np.nanmax(y))\n',
                           'edits': [('tile.py',
                                      '                self.cell_indices[resolution] = self.cell_indices[resolution][msk]\n                self._clear_temp_data(resolution)\n',
                                      '                self.cell_indices[resolution] = self.cell_indices[resolution][msk]\n')],
                           'needs': 'slopes queried, points removed, slopes queried again without gridding in between',
                           'property': 'C22'},
 'times-in-local-zone': {'breaks': 'the time range of the grid is shifted by the local offset when a second container is added',
                         'demo': '\n'
                                 'import time\n'
                                 "os.environ['TZ'] = 'America/New_York'\n"
                                 'time.tzset()\n'
                                 'g = make()\n'
                                 "add(g, 'A', pts((0.5, 0.5, 8.)), min_time=1600000000, max_time=1600001000)\n"
                                 "add(g, 'B', pts((1.5, 0.5, 8.)), min_time=1600000500, max_time=1600000900)\n"
                                 "assert (g.min_time, g.max_time) == ('2020-09-13T12:26:40', '2020-09-13T12:43:20'), (g.min_time, g.max_time)\n",
                         'edits': [('utilities.py', "strptime(fmttime, '%Y-%m-%dT%H:%M:%S').replace(tzinfo=timezone.utc).timestamp())", "strptime(fmttime, '%Y-%m-%dT%H:%M:%S').timestamp())")],
                         'needs': 'a local time zone other than UTC and a second container with times',
                         'property': 'C15'},
 'whole-input-kept': {'breaks': 'the tile keeps the array of the caller, later changes to that array change the grid',
                      'demo': '\n'
                              'p = pts((0.5, 0.5, 10.), (1.5, 0.5, 11.))\n'
                              'g = make()\n'
                              "add(g, 'A', p)\n"
                              "p['z'] = 99.\n"
                              "g.grid('mean', 1.0, progress_bar=False)\n"
                              "assert np.nanmax(g.get_layers_by_name('depth', 1.0)[0]) == 11.0\n",
                      'edits': [('bgrid.py', '                pts = self.data[point_mask]\n', '                pts = self.data if point_mask.all() else self.data[point_mask]\n')],
                      'needs': 'a grid in memory, all points of an addition in one tile, and the caller reusing its array afterwards',
                      'property': 'C23'}}
from bugs2 import BUGS2
BUGS.update(BUGS2)
