"""Writes /verif/properties.jsonl (kept as code so that the text stays readable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                          'observe_at': list(observe), 'hook_needed': hook}})


prop('C01', 'Points are conserved, unaltered, and kept in the right tile',
     'At any moment a grid holds exactly the points of the containers that were added and not removed since: each once, with its position, '
     'depth and uncertainties unaltered, and still attributed to the container it came with. '
     'Every point lies in the tile (and, for variable resolution, the subtile) whose half-open square covers it, points on an edge belong to the tile that starts there, '
     'and no tile without points remains in the grid.',
     ['histories', 'inputs', 'configurations'],
     'Every history of adding, removing, re-adding, gridding and reloading of containers that share tiles, cells and edges; single and variable resolution, coordinates around zero and of UTM size, negative growth.',
     'Tests add one or two fixed containers in one fixed order and remove one; index bookkeeping errors need three containers in one tile, a removal in the middle and another operation after it.',
     ['bathygrid/bgrid.py', 'bathygrid/tile.py', 'bathygrid/grids.py', 'bathygrid/utilities.py'],
     [('BathyGrid._add_points_to_tiles', 'bathygrid/bgrid.py'), ('SRTile.add_points / remove_points', 'bathygrid/tile.py'), ('bin2d_with_indices', 'bathygrid/utilities.py')],
     [('tile.container', 'container name -> index range of its points in the tile', 'bathygrid/tile.py'), ('grid.tiles', '2d array of tiles', 'bathygrid/grids.py')],
     ['grid.tiles', 'tile.data', 'tile.container', 'grid.points_count'])

prop('C02', 'Every gridded cell is the statistic of exactly the points inside it',
     'After gridding with the mean or shoalest method at a resolution, every cell of the surface holds the mean (or the shoalest) depth of exactly the points in its half-open square, the number of those points as density, '
     'and as vertical and horizontal uncertainty the mean of theirs (mean method) or that of the shoalest point (shoalest method). Cells without points hold no depth, no uncertainty and a density of zero.',
     ['inputs', 'configurations'],
     'Every assignment of a small set of points to positions that include cell centres, cell edges, tile edges and tile corners, in every order, with and without uncertainties, for both methods, several resolutions, single and variable resolution, small and UTM size coordinates, float32 and float64 values.',
     'Tests grid one regular lattice of points whose depth grows with position, so every cell has its points in sorted order and none lies where sorting, ties or cell edges matter.',
     ['bathygrid/algorithms.py', 'bathygrid/tile.py', 'bathygrid/utilities.py'],
     [('np_grid_mean / np_grid_shoalest', 'bathygrid/algorithms.py'), ('SRTile.grid', 'bathygrid/tile.py'), ('bin2d_with_indices', 'bathygrid/utilities.py')],
     [('tile.cells', 'resolution -> layer name -> 2d array', 'bathygrid/tile.py')],
     ['tile.cells', 'get_layers_by_name'])

prop('C03', 'The surface depends only on the data present, not on how it got there',
     'Two grids that hold the same containers and are gridded with the same settings give the same points, surface, resolutions and mean depth, whatever order of additions, removals, re-additions, earlier griddings, reloads and growth led there. '
     'In particular, adding a container and removing it again leaves the next full gridding as if it had never been added.',
     ['histories', 'configurations'],
     'All histories up to a depth over a small alphabet of overlapping containers, interleaved griddings with different resolutions and methods, single and variable resolution, explicit and automatic resolution.',
     'Tests compare a few fixed histories with constants; order dependence shows only when histories that end in the same data are compared with each other.',
     ['bathygrid/bgrid.py', 'bathygrid/tile.py', 'bathygrid/grids.py'],
     [('BathyGrid.add_points / remove_points / grid', 'bathygrid/bgrid.py'), ('SRTile.grid', 'bathygrid/tile.py')],
     [('tile.cell_indices', 'cached cell of every point', 'bathygrid/tile.py'), ('grid.mean_depth', 'mean depth of all points', 'bathygrid/bgrid.py')],
     ['tile.cells', 'grid.resolutions', 'grid.mean_depth'])

prop('C04', 'An update regrid equals a full regrid and touches only what changed',
     'Regridding in update mode with unchanged settings after points were added or removed gives the same surface, resolutions and layers as a full regrid of the same data. '
     'Tiles whose points have not changed since the last gridding keep their gridded values as they are, and a second update with no change in between changes nothing.',
     ['histories', 'configurations'],
     'All histories of additions and removals between griddings, including reloads between a change and the update, for single and variable resolution, explicit and automatic resolution, sequential and parallel gridding.',
     'The update tests change one tile of a lattice once and compare counts; they never combine changed and unchanged tiles in both orders, removals, reloads or several resolutions.',
     ['bathygrid/bgrid.py', 'bathygrid/tile.py', 'bathygrid/backends.py'],
     [('BathyGrid._grid_regular / _grid_parallel', 'bathygrid/bgrid.py')],
     [('tile.point_count_changed', 'points changed since the last gridding', 'bathygrid/tile.py')],
     ['tile.cells', 'grid.resolutions'])

prop('C05', 'A grid on disk can be reloaded at any operation boundary without loss',
     'For a grid with an output folder, loading that folder after any completed operation gives a grid with the same points, containers, surfaces, resolutions, extents and metadata as the live one. '
     'Every later operation on the loaded grid has the same effect as on the live grid, so a process may end between any two operations.',
     ['crash_points', 'histories', 'configurations'],
     'Every history up to a depth of add, remove, full and update gridding, with a stop and reload after every operation; both storage backends, single and variable resolution, arrays stored in one or many chunks.',
     'Tests reload after a finished add and grid only; they do not reload between add and remove, after a tile was emptied, or continue on the reloaded grid.',
     ['bathygrid/backends.py', 'bathygrid/bgrid.py', 'bathygrid/convenience.py', 'bathygrid/grid_variables.py'],
     [('BaseStorage._save_grid / _save_tile / _load_tile / load', 'bathygrid/backends.py'), ('load_grid', 'bathygrid/convenience.py')],
     [('metadata.json and array folders', 'the grid on disk', 'bathygrid/backends.py')],
     ['load_grid', 'grid.tiles', 'return_attribution'])

prop('C06', 'Saving writes a complete copy and replaces what an earlier save left',
     'Saving a grid to a folder, in memory or already on disk elsewhere, lets that folder be loaded as an equal grid, also after the folder was moved, and leaves the grid itself unchanged. '
     'Saving again to the same folder after points were removed, replaced or regridded leaves nothing of the earlier content in what is loaded.',
     ['histories', 'configurations'],
     'All pairs of grid states reached by short histories, saved one over the other to one folder, both backends, single and variable resolution, with the folder moved before loading.',
     'Tests save a grid once to a new folder and load it from there.',
     ['bathygrid/backends.py'],
     [('BaseStorage.save / load / _clear_tile', 'bathygrid/backends.py')],
     [], ['BathyGrid.save', 'load_grid'])

prop('C07', 'Storage backend and location do not change what a grid computes',
     'The same history of operations gives the same points, surfaces, resolutions, layers, extents and metadata with the numpy backend, the zarr backend, in memory and on disk.',
     ['configurations', 'histories'],
     'All histories up to a depth, run in lock step on in-memory and on-disk grids of both backends, single and variable resolution, with one and several chunks per stored array.',
     'Tests exercise mostly one backend per scenario and compare each with its own constants.',
     ['bathygrid/backends.py', 'bathygrid/maingrid.py'],
     [('NumpyGrid / ZarrGrid', 'bathygrid/backends.py')],
     [], ['grid.tiles', 'get_layers_by_name'])

prop('C08', 'Parallel gridding equals sequential gridding for every schedule',
     'Gridding with the parallel option gives exactly the surface, resolutions and on-disk state of sequential gridding, in full and in update mode, '
     'whatever the number of workers, the way tiles are batched and the order in which workers start and finish.',
     ['schedules', 'configurations'],
     'Every order of execution and completion of the worker tasks and every worker count for grids of up to several batches of tiles, single and variable resolution, in memory and on disk, full and update mode, explicit and automatic resolution.',
     'The tests start one real cluster and run one schedule, the one the machine happens to choose.',
     ['bathygrid/bgrid.py'],
     [('BathyGrid._grid_parallel / _grid_parallel_worker / _gridding_parallel', 'bathygrid/bgrid.py')],
     [('tile_indices', 'where each result belongs', 'bathygrid/bgrid.py')],
     ['grid.tiles', 'grid.resolutions', 'output folder'])

prop('C09', 'Extents are aligned, cover all points, and grow without moving anything',
     'The extents of a grid are whole multiples of the tile size from its origin, every point lies strictly inside the upper edges, the reported tile edges and origins are evenly spaced and match the extents, '
     'and every tile sits at the row and column of its own origin. Adding points in any direction only enlarges the extents and leaves every existing tile with its coordinates, points and surface as it was.',
     ['histories', 'inputs', 'configurations'],
     'Every sequence of additions (with removals in between) at positions on a lattice around the grid that includes tile edges, corners and far away points in all directions; origins at zero and elsewhere; tile sizes above and below one.',
     'Tests grow a grid once or twice to the upper right or lower left.',
     ['bathygrid/grids.py', 'bathygrid/bgrid.py'],
     [('BaseGrid._adjust_extents / _build_grid / _update_extents', 'bathygrid/grids.py'), ('BathyGrid._update_tiles', 'bathygrid/bgrid.py')],
     [('existing_tile_mask', 'where the old tiles go in the grown grid', 'bathygrid/grids.py')],
     ['return_extents', 'tile_x_origin', 'tile_edges_x', 'grid.tiles'])

prop('C10', 'Assembled layers put every cell at its true place',
     'The layers returned for the whole grid, for each tile and trimmed to the data, hold every gridded cell once at the row and column of its true northing and easting, and no data everywhere else, for each requested layer, resolution and no-data value. '
     'The trimmed layer is the smallest rectangle around the data and the returned node positions or cell boundaries are those of its cells; asking for positive up changes only the sign of the depths.',
     ['inputs', 'histories', 'configurations'],
     'All arrangements of gridded, ungridded and missing tiles on a small lattice, several layers in every order, several resolutions, NaN and numeric no-data values, both sign conventions, single and variable resolution.',
     'Tests read one layer of a square, fully populated grid in which rows and columns can be swapped without notice.',
     ['bathygrid/bgrid.py', 'bathygrid/tile.py'],
     [('BathyGrid.get_layers_by_name / get_layers_trimmed / return_surf_xyz / get_tiles_by_resolution', 'bathygrid/bgrid.py')],
     [], ['get_layers_by_name', 'get_layers_trimmed', 'return_surf_xyz', 'get_tiles_by_resolution'])

prop('C11', 'A query at a position returns the value of the cell that covers it',
     'Querying a layer at any positions returns for each the value of the cell covering it in the requested resolution, or without a resolution the value of the finest resolution that has data there, and the no-data value where there is none. '
     'The answer for a position is the same whether it is asked alone, as a number, or with others in a list, tuple or array.',
     ['inputs', 'configurations'],
     'Every position on a lattice twice as fine as the cells, extending outside the grid on all sides, for every layer, single and variable resolution, every container type of the query.',
     'Tests query a handful of interior positions of one fully populated grid.',
     ['bathygrid/bgrid.py'],
     [('BathyGrid.layer_values_at_xy / _validate_layer_query', 'bathygrid/bgrid.py')],
     [], ['layer_values_at_xy'])

prop('C12', 'Chunks cover the gridded area exactly once, in bounds and in place',
     'Splitting a surface into chunks yields every gridded cell in exactly one chunk with its value and true position by the georeference of that chunk, no data elsewhere, no empty chunks, and the true size of the chunk. '
     'No chunk is wider or taller than the given maximum dimension unless that is smaller than one tile, in which case a chunk is one tile.',
     ['inputs', 'configurations'],
     'Every occupied subset of small tile lattices of all shapes, all maximum dimensions up to beyond the lattice, several layers and no-data values, both orientations, single and variable resolution, ungridded tiles in between.',
     'Tests use one square arrangement with one maximum dimension.',
     ['bathygrid/bgrid.py'],
     [('BathyGrid.get_chunks_of_tiles / _finalize_chunk / _tile_chunk_indices / _split_to_approx_shape', 'bathygrid/bgrid.py')],
     [], ['get_chunks_of_tiles'])

prop('C13', 'Exported CSV, GeoTIFF and BAG files agree with the surface',
     'Reading back an exported CSV, GeoTIFF or BAG gives for every gridded cell of every exported resolution one node at its true position with the depth or elevation and uncertainty of the surface, and no data elsewhere. '
     'All formats use the requested sign convention for grids with depths and for grids with heights, the coordinate system of the grid and, for BAG, its time range, value range and positive up vertical reference.',
     ['inputs', 'configurations'],
     'All combinations of format, sign option, data sign convention, methods, resolutions, chunk sizes and tile arrangements on small grids, read back through GDAL, h5py and plain text.',
     'Tests check that files exist and compare a few header values of one small grid.',
     ['bathygrid/bgrid.py', 'bathygrid/utilities.py'],
     [('OperationalGrid.export', 'bathygrid/bgrid.py'), ('gdal_raster_create', 'bathygrid/utilities.py')],
     [], ['export'])

prop('C14', 'A rejected request leaves the grid and the disk as they were',
     'Adding data that is refused (name already present, different coordinate system or vertical reference - references to MLLW count as the same -, missing x, y or z, no points, unsupported type), gridding that is refused (other method without clearing, unsupported resolution or mode, no points) and creating a grid with invalid options all raise an error. '
     'After the refusal the grid, in memory and on disk, is unchanged and usable, and no folder was created. Removing a container that is not there changes nothing.',
     ['inputs', 'histories', 'configurations'],
     'Every refused request in every state reached by short histories, both backends, in memory and on disk, single and variable resolution, followed by further valid operations.',
     'Tests check that an error is raised for one or two cases; none looks at the grid afterwards.',
     ['bathygrid/bgrid.py', 'bathygrid/convenience.py', 'bathygrid/tile.py'],
     [('BathyGrid._update_metadata / _validate_input_data / grid', 'bathygrid/bgrid.py'), ('_validate_create_options', 'bathygrid/convenience.py')],
     [], ['grid state', 'output folder'])

prop('C15', 'Metadata always describes the data that is in the grid',
     'The grid lists exactly the containers present with the files given for each, the union of the time ranges given, the coordinate system and vertical reference, the number of points and tiles, the mean depth of all points, '
     'the method and resolutions of the last gridding, and the extents; the attribution report agrees. It does so after every operation and reload, and independent of the local time zone.',
     ['histories', 'configurations'],
     'All histories of adds with different metadata, removals, griddings and reloads up to a depth; several local time zones; container names with chunk suffixes.',
     'Tests check the metadata after one add in one time zone.',
     ['bathygrid/bgrid.py', 'bathygrid/grids.py', 'bathygrid/utilities.py', 'bathygrid/backends.py'],
     [('BathyGrid._update_metadata / _update_mean_depth / return_attribution', 'bathygrid/bgrid.py')],
     [('container, container_timestamp, min_time, max_time, epsg, vertical_reference, mean_depth, number_of_tiles', 'metadata of the grid', 'bathygrid/bgrid.py')],
     ['return_attribution', 'repr', 'metadata attributes'])

prop('C16', 'A container query is the surface of that container alone',
     'Asking a gridded surface for a container by name gives, at every cell, the value that gridding only the points of that container with the same method and resolution would give, and no data elsewhere. '
     'The query can be combined with other layers in any order, repeated, and changes nothing in the grid.',
     ['histories', 'configurations'],
     'Every container in every state reached by histories of adds, removals and griddings in which containers share cells and tiles; all orders of layers; both methods, both backends, single and variable resolution, after reload.',
     'Tests query one container of one grid once.',
     ['bathygrid/tile.py', 'bathygrid/bgrid.py'],
     [('SRTile.get_layers_by_name', 'bathygrid/tile.py')],
     [('tile.container', 'index range of the points of the container', 'bathygrid/tile.py')],
     ['get_layers_by_name'])

prop('C17', 'Automatic resolution follows the documented rules for every depth and density',
     'With depth mode the resolution is the one the lookup gives for the mean depth (of the grid for single resolution, of each subtile for variable resolution): the entry of the first limit deeper than it, the coarsest beyond the table, never more than the tile size. '
     'With density mode it is the smallest allowed power of two not finer than the estimate from the point density, or the depth lookup for tiles that are mostly empty, the coarsest of the tiles for single resolution, and again at most the tile size. '
     'The resolutions reported are exactly those present in the surface.',
     ['inputs', 'configurations', 'histories'],
     'Every depth around each lookup limit and beyond, every point count and fill pattern around the density thresholds, all tile sizes, single and variable resolution, both backends, data added in several steps and orders.',
     'Tests use one or two depths well inside a lookup band.',
     ['bathygrid/bgrid.py', 'bathygrid/tile.py', 'bathygrid/grid_variables.py'],
     [('_calculate_resolution_lookup', 'bathygrid/bgrid.py'), ('_calculate_resolution_lookup, resolution_by_density', 'bathygrid/tile.py')],
     [], ['grid()', 'grid.resolutions', 'tile.resolutions'])

prop('C18', 'Statistics of the surface agree with the surface',
     'Cell counts per resolution, soundings per cell and per square metre, the same against depth, the covered area, the layer names and the list of all values of a layer are those of the gridded cells: '
     'every populated cell is counted once, no empty one is, and values that belong together are at the same place in their lists.',
     ['inputs', 'histories', 'configurations'],
     'All point arrangements and histories of the other properties on small grids with several tiles and resolutions, in memory, on disk and reloaded, both backends.',
     'Tests compare the statistics of one grid with one tile resolution with constants.',
     ['bathygrid/bgrid.py', 'bathygrid/tile.py'],
     [('cell_count, density_count, density_per_square_meter, coverage_area_square_meters, return_layer_values', 'bathygrid/bgrid.py and bathygrid/tile.py')],
     [], ['cell_count', 'density_count', 'coverage_area_square_meters', 'return_layer_values', 'return_layer_names'])

prop('C19', 'Backscatter grids behave like depth grids with an intensity layer',
     'A grid created for backscatter has an intensity layer and no depth layer in every tile and subtile, with the values gridding gives, unaffected by sign options, before and after save and reload and with either backend, sequential or parallel. '
     'It exports to CSV and GeoTIFF as intensity and refuses BAG.',
     ['configurations', 'histories'],
     'All short histories on backscatter grids over grid types, backends, storage, methods, update and full gridding, exports and reloads.',
     'One test covers backscatter, for one grid type.',
     ['bathygrid/bgrid.py', 'bathygrid/tile.py', 'bathygrid/maingrid.py', 'bathygrid/backends.py'],
     [('is_backscatter, depth_key', 'bathygrid/bgrid.py and bathygrid/tile.py'), ('_build_tile', 'bathygrid/maingrid.py')],
     [('is_backscatter', 'kind of grid', 'bathygrid/bgrid.py')],
     ['layer_names', 'get_layers_by_name', 'export'])

prop('C20', 'Temporary file locks are waited out, lasting I/O errors are reported',
     'When files of a grid are locked for some seconds during any operation that writes to disk (removing them fails with permission errors that go away on retry), the operation completes and the grid in memory and on disk is the same as without them. '
     'An I/O error that does not go away is raised to the caller; no operation reports success when a removal or write it needed did not happen.',
     ['fault_sequences'],
     'A permission error at every single removal call of every disk operation, one or several times in a row, and a lasting error at every removal, folder creation and file write call, for both backends and grid types.',
     'Tests run on a disk that never fails.',
     ['bathygrid/utilities.py', 'bathygrid/backends.py'],
     [('remove_with_permissionserror', 'bathygrid/utilities.py'), ('BaseStorage._clear_tile, _save_array', 'bathygrid/backends.py')],
     [], ['output folder', 'exceptions'])

prop('C21', 'Neighbour lookup finds the adjoining tiles and the points along the shared edge',
     'For every tile the neighbours reported are the tiles that share its lower, right, upper and left edge (in rows and columns of the grid), or none at the rim and where no tile exists. '
     'The neighbour points for a buffer are exactly the points of those neighbours no farther than the buffer from the shared edge, for tiles and for variable resolution subgrids.',
     ['inputs', 'configurations'],
     'Every occupied subset of a 3 by 3 lattice of tiles with points at several distances from every edge, buffers from zero to the tile size, single and variable resolution, in memory and on disk.',
     'Tests look at one fully occupied grid and one buffer.',
     ['bathygrid/bgrid.py'],
     [('BathyGrid.get_tile_neighbors / get_tile_neighbor_points', 'bathygrid/bgrid.py')],
     [], ['get_tile_neighbors', 'get_tile_neighbor_points'])

prop('C22', 'Slope layers are the plane fit of the current points of each cell',
     'For every cell whose points determine a plane, the slope layers hold the east and north gradient of the least squares plane through exactly the points now in that cell, and cells without points hold none. '
     'After points are added or removed and the grid is regridded, or after points are removed, the slopes returned are those of the current points and never earlier ones.',
     ['histories', 'inputs', 'configurations'],
     'All histories of slope queries between adds, removals and griddings; planes with every sign of gradient; small and UTM size coordinates; both backends, single and variable resolution.',
     'One test fits one plane once; staleness needs a query, a change and another query.',
     ['bathygrid/tile.py', 'bathygrid/algorithms.py'],
     [('SRTile._run_slopes / _clear_temp_data', 'bathygrid/tile.py'), ('calculate_slopes', 'bathygrid/algorithms.py')],
     [('x_slope, y_slope', 'cached slope layers', 'bathygrid/tile.py')],
     ['get_layers_by_name'])

prop('C23', 'All input forms give the same grid and stay independent of it',
     'The same points given as structured array, dask array (in any chunking) or xarray dataset, in any order, with extra fields or other number types, and a resolution given as any type of number, give the same grid. '
     'The data passed in is not changed by any operation, and changing it or the result of a query afterwards does not change the grid.',
     ['inputs', 'configurations'],
     'All input forms, chunkings and permutations of small point sets, followed by gridding and by changes to the input, in memory and on disk.',
     'Tests use one form per scenario and never look at the input again.',
     ['bathygrid/bgrid.py', 'bathygrid/utilities.py'],
     [('OperationalGrid._convert_dataset / _validate_input_data', 'bathygrid/bgrid.py'), ('bin2d_with_indices', 'bathygrid/utilities.py')],
     [], ['add_points', 'grid state'])

prop('C24', 'Creating never takes over existing content and loading restores the type made',
     'Creating a grid in a folder always succeeds for valid options, uses the folder if it is new or empty and a new one beside it otherwise, and never touches what is already there. '
     'Loading a folder gives a grid of the type, backend, tile sizes and kind it was created with, a folder is recognised as a grid exactly if it holds one, and loading anything else raises an error. A grid keeps using its own folder when the current directory of the process changes.',
     ['configurations', 'histories'],
     'Every combination of valid options with folders that are absent, nested, relative, empty or occupied, created repeatedly within one second, loaded back before and after points are added.',
     'Tests create each type once in a new folder.',
     ['bathygrid/convenience.py', 'bathygrid/utilities.py', 'bathygrid/maingrid.py'],
     [('create_grid / load_grid / is_bathygrid', 'bathygrid/convenience.py'), ('create_folder', 'bathygrid/utilities.py')],
     [], ['create_grid', 'load_grid', 'is_bathygrid'])

prop('C25', 'CUBE gridding gives its engine the right points and keeps what it returns',
     'CUBE gridding runs the engine once for each tile it has to grid, with exactly the points of the tile and those of the adjoining tiles within a tenth of a tile of the shared edge, at the right place, resolution and with the given parameters, sequentially and in parallel. '
     'The layers then hold what the engine returned, nothing of an earlier gridding, and a container query runs it with the points of that container alone.',
     ['histories', 'schedules', 'configurations'],
     'All histories of additions, removals, CUBE griddings and reloads for containers with points near edges, corners and far from both; both backends, single and variable resolution, sequential and parallel.',
     'The CUBE package is optional and the tests that use it need it installed; border points and stale hypotheses appear only for particular neighbours and histories.',
     ['bathygrid/tile.py', 'bathygrid/bgrid.py', 'bathygrid/algorithms.py'],
     [('SRTile._run_cube_grid / _cube_grid_algorithm_initialize', 'bathygrid/tile.py'), ('nb_cube', 'bathygrid/algorithms.py'),
      ('BathyGrid._grid_regular / _grid_parallel / get_tile_neighbor_points', 'bathygrid/bgrid.py')],
     [('cells', 'layers of each tile by resolution', 'bathygrid/tile.py')], ['bathygrid.algorithms.run_cube_gridding', 'get_layers_by_name'])

prop('C26', 'Looking at a grid or exporting it changes nothing',
     'Queries (layers, tiles, chunks, positions, values, slopes, container surfaces, neighbours), statistics, attribution, plots and exports, including those that are refused, leave the points, surfaces, metadata and files of the grid as they were. '
     'They give the same answer whenever and however often they are asked and whatever was asked before (slope layers are kept once asked for, and then exported too), the arrays returned may be changed freely, and later additions, removals and griddings give what they would have given without them.',
     ['histories', 'configurations'],
     'Every read operation from every listed state of the grid and from those reads lead to, all ordered pairs of reads, and every read followed by all short histories; both backends, single and variable resolution, in memory, on disk and reloaded.',
     'Tests read a grid at the end and look at one answer; temporary layers, signs flipped in place and caches show only in a later operation.',
     ['bathygrid/bgrid.py', 'bathygrid/tile.py', 'bathygrid/grids.py', 'bathygrid/backends.py'],
     [('BathyGrid.get_layers_by_name / get_tile_data / get_layers_trimmed / return_surf_xyz / layer_values_at_xy / plot*', 'bathygrid/bgrid.py'),
      ('SRTile.get_layers_by_name / return_layer_values / statistics', 'bathygrid/tile.py'), ('OperationalGrid.export', 'bathygrid/bgrid.py')],
     [('cells', 'layers of each tile, container queries put theirs there for a moment', 'bathygrid/tile.py')], ['all read operations', 'state and files of the grid'])

prop('C27', 'Grids do not affect one another',
     'Any number of grids may be alive in one process and lie beside one another on disk: each holds at every moment exactly what the operations on it alone give, in memory and in its files. '
     'This holds for grids of equal or different type, backend, tile size and kind, with equal container names, and when the same input arrays and lists are given to several of them.',
     ['histories', 'configurations'],
     'All interleavings of two histories of additions, removals, griddings, slope queries and reloads on two live grids, for all pairs of histories, types, backends and places in the bounds, compared with each grid alone in a new process.',
     'Tests make one grid at a time; anything kept per class or module, or shared with the caller, shows only with a second grid.',
     ['bathygrid/bgrid.py', 'bathygrid/tile.py', 'bathygrid/grids.py', 'bathygrid/backends.py', 'bathygrid/maingrid.py', 'bathygrid/convenience.py'],
     [('BathyGrid.add_points / grid / remove_points', 'bathygrid/bgrid.py'), ('Grid, BaseGrid, TileGrid', 'bathygrid/grids.py'), ('BaseStorage', 'bathygrid/backends.py')],
     [('container, cells, tiles', 'what each grid and tile holds', 'bathygrid/grids.py')], ['state and files of each grid'])
prop('C28', 'Bins, sizes, times, coordinate systems, rasters and folders are handled exactly',
     'For every input: a point is binned into the cell whose half open bounds hold it, for any sorted edges and the same for numpy and dask arrays in any chunking, and mixed array types are refused with ValueError; '
     'a size is accepted as a power of two exactly if it is one (above or below one, any number type); a time in seconds and its text stand for the same UTC second in any local time zone; a coordinate system given as '
     'number, numeric text, CRS or WKT becomes that same system; a raster holds exactly the arrays, names, no data value, position and system it was given; the vertical system of a BAG is found in either order and '
     'anything but one horizontal and one vertical system is refused; a created folder is always empty and nothing that existed is changed; and removing a busy folder is tried again until it is gone, or raises.',
     ['inputs', 'histories', 'fault_sequences'],
     'All arrangements of edges and distinguished positions, all powers of two and their neighbours, all changes of clock, forms of coordinate systems, raster shapes, fault patterns of the removal and sequences of folder creations in the bounds.',
     'Tests bin a handful of points, in one time zone and one coordinate system, and removals never fail in them.',
     ['bathygrid/utilities.py'],
     [('bin2d_with_indices, is_power_of_two, create_folder, crs_to_osgeo, gdal_raster_create', 'bathygrid/utilities.py')],
     [('bin index', 'which bin each point falls in', 'bathygrid/utilities.py')], ['value returned, files and folders'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
