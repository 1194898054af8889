From d129a8d437bc709b3a4a120bee076905fa689b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 01/56] fix: use int() instead of the removed np.int when
 reading integer layers

---
 bathygrid/bgrid.py | 4 ++--
 bathygrid/tile.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 1392517..3b4b34b 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -506,7 +506,7 @@ class BathyGrid(BaseGrid):
         elif layername in ['density', 'hypothesis_count']:
             # density has to have an integer based nodatavalue
             try:
-                nodatavalue = np.int(nodatavalue)
+                nodatavalue = int(nodatavalue)
             except ValueError:
                 nodatavalue = 0
         y_size = self.height / resolution
@@ -1040,7 +1040,7 @@ class BathyGrid(BaseGrid):
             elif lyr in ['density', 'hypothesis_count']:
                 # density has to have an integer based nodatavalue
                 try:
-                    nodatavalue = np.int(nodatavalue)
+                    nodatavalue = int(nodatavalue)
                 except ValueError:
                     nodatavalue = 0
             finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), nodatavalue)
diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 5f44f47..990b734 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -799,7 +799,7 @@ class SRTile(Tile):
         elif layer in ['density', 'hypothesis_count']:
             # density has to have an integer based nodatavalue
             try:
-                nodatavalue = np.int(nodatavalue)
+                nodatavalue = int(nodatavalue)
             except ValueError:
                 nodatavalue = 0
         else:
-- 
2.43.0


From 0f0547b0eb6e102627254767629f6f92883fe1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 02/56] fix: shoalest gridding takes the uncertainty of the
 shoalest sounding of the cell

---
 bathygrid/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bathygrid/algorithms.py b/bathygrid/algorithms.py
index c08d628..d0bab15 100644
--- a/bathygrid/algorithms.py
+++ b/bathygrid/algorithms.py
@@ -123,8 +123,9 @@ def np_grid_shoalest(depth: np.array, cell_indices: np.array, grid: np.ndarray,
 
     depth_idx = None
     if tvu_enabled or thu_enabled:
-        depth_sort = np.argsort(depth)
-        depth_idx = np.searchsorted(depth[depth_sort], depth_min)
+        # sort by cell and then by depth, so that the first point of each cell is the shoalest point of that cell
+        depth_sort = np.lexsort((depth, cell_indices))
+        depth_idx = depth_sort[uidx]
     if tvu_enabled:
         tvu_shoalest = tvu[depth_idx]
         tvu_grid[urow, ucol] = tvu_shoalest
-- 
2.43.0


From e350a578d8c923dbd48c4fdd6de6d4b6afb9f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 03/56] fix: save the grid metadata after adding points, so
 tile count and mean depth are not stale on reload

---
 bathygrid/bgrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 3b4b34b..e533820 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -704,6 +704,7 @@ class BathyGrid(BaseGrid):
         self._update_tiles(container_name, progress_bar)
         self._update_mean_depth()
         self.data = None  # points are in the tiles, clear this attribute to free up memory
+        self._save_grid()  # tile count and mean depth are only known now that the points are in the tiles
 
     def _remove_tile(self, flat_index: int):
         """
-- 
2.43.0


From 0e85fdaa431c48cfb038d59e455c0dc6d950bb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 04/56] fix: a subgrid that was emptied by remove_points is not
 a tile after reload

---
 bathygrid/backends.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 0d1e6f4..36483a1 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -347,6 +347,8 @@ class BaseStorage(OperationalGrid):
                         newgrid = storage_cls()
                         newgrid.name = os.path.split(subgrid_folder)[1]
                         newgrid.load(root_folder)
+                        if newgrid.is_empty:  # all points were removed from this subgrid, so there is no tile here
+                            newgrid = None
                         self.tiles[row][col] = newgrid
                     else:
                         self.tiles[row][col] = None
-- 
2.43.0


From e3deff2d371dc975c4c3128bc3071ebe9048e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 05/56] fix: saving a variable resolution grid clears stale
 subgrids from the root folder

---
 bathygrid/backends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 36483a1..fe0da5b 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -268,7 +268,7 @@ class BaseStorage(OperationalGrid):
                 for cnt, subgrid in enumerate(self.tiles.flat):
                     if progress_bar:
                         print_progress_bar(cnt + 1, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
-                    subgrid_folder, row, col = self._get_tile_folder(self.output_folder, cnt)
+                    subgrid_folder, row, col = self._get_tile_folder(os.path.join(self.output_folder, self.name), cnt)
                     if subgrid is None:
                         self._clear_tile(subgrid_folder)
                     else:
-- 
2.43.0


From 9624f109fd2b8ba602451927a05a490102bd8f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 06/56] fix: subgrids of a variable resolution backscatter grid
 are backscatter as well

---
 bathygrid/maingrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/maingrid.py b/bathygrid/maingrid.py
index 88b81c2..586e050 100644
--- a/bathygrid/maingrid.py
+++ b/bathygrid/maingrid.py
@@ -58,7 +58,7 @@ class VRGridTile(SRGrid):
             ofolder = ''
         return self.storage_class(min_x=tile_x_origin, min_y=tile_y_origin, max_x=tile_x_origin + self.tile_size,
                                   max_y=tile_y_origin + self.tile_size, tile_size=self.subtile_size,
-                                  set_extents_manually=True, output_folder=ofolder)
+                                  set_extents_manually=True, output_folder=ofolder, is_backscatter=self.is_backscatter)
 
 
 class SRGridZarr(ZarrGrid):
@@ -116,4 +116,4 @@ class VRGridTileZarr(SRGridZarr):
             ofolder = ''
         return self.storage_class(min_x=tile_x_origin, min_y=tile_y_origin, max_x=tile_x_origin + self.tile_size,
                                   max_y=tile_y_origin + self.tile_size, tile_size=self.subtile_size,
-                                  set_extents_manually=True, output_folder=ofolder)
+                                  set_extents_manually=True, output_folder=ofolder, is_backscatter=self.is_backscatter)
-- 
2.43.0


From da6629c51f9eebdcc08685726eedc84bdf3e0904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 07/56] fix: regrid_option=update no longer regrids the
 unchanged tiles that follow a changed tile

---
 bathygrid/bgrid.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index e533820..e71e66e 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1310,6 +1310,7 @@ class BathyGrid(BaseGrid):
             if progress_bar:
                 print_progress_bar(cnt + 1, self.tiles.size, 'Gridding {} - {}:'.format(self.name, algorithm))
             if tile:
+                clear_tile = clear_existing
                 if regrid_option == 'update':
                     if not clear_existing:  # this should always be false with update, but check just in case someone wants to fully clear everything
                         # update only those tiles with new points/removed points.  If the point count hasn't changed, we skip
@@ -1319,7 +1320,7 @@ class BathyGrid(BaseGrid):
                                     self.resolutions.append(rz)
                             continue
                     if isinstance(tile, SRTile):
-                        clear_existing = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
+                        clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                 if algorithm == 'cube':
                     border_data = self.get_tile_neighbor_points(tile, tile.width / 10)
                     if grid_border_data is not None:
@@ -1330,13 +1331,13 @@ class BathyGrid(BaseGrid):
                 else:
                     border_data = None
                 if isinstance(tile, BathyGrid) and auto_resolution:  # vrgrid subgrids can calc their own resolution
-                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 elif isinstance(tile, SRTile) and auto_resolution and self.name not in sr_grid_root_names:  # tiles in vrgridtile can be different resolutions
-                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 else:
-                    rez = tile.grid(algorithm, resolution, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, resolution, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 if isinstance(rez, float) or isinstance(rez, int):
                     rez = [rez]
@@ -1419,6 +1420,7 @@ class BathyGrid(BaseGrid):
 
         for cnt, tile in enumerate(self.tiles.flat):
             if tile:
+                clear_tile = clear_existing
                 if regrid_option == 'update':
                     if not clear_existing:  # this should always be false with update, but check just in case someone wants to fully clear everything
                         # update only those tiles with new points/removed points.  If the point count hasn't changed, we skip
@@ -1428,7 +1430,7 @@ class BathyGrid(BaseGrid):
                                     self.resolutions.append(rz)
                             continue
                     if isinstance(tile, SRTile):
-                        clear_existing = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
+                        clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                 if self.sub_type in ['srtile', 'quadtile']:
                     self._load_tile_data_to_memory(tile)
                 tile_indices.append(cnt)
@@ -1444,7 +1446,7 @@ class BathyGrid(BaseGrid):
                             border_data = grid_border_data
                 else:
                     border_data = None
-                data_for_workers.append([tile, algorithm, resolution, clear_existing, regrid_option, auto_resolution, self.name, self.grid_parameters, border_data])
+                data_for_workers.append([tile, algorithm, resolution, clear_tile, regrid_option, auto_resolution, self.name, self.grid_parameters, border_data])
                 chunk_index += 1
                 if chunk_index == chunks_at_a_time:
                     print('processing surface: group {} out of {}'.format(cur_run, total_runs))
-- 
2.43.0


From 3561dfc87953fa6648095b26e9568cfd872182ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 08/56] fix: get_layers_by_name keeps layers in order when a
 tile has no data for one of them

---
 bathygrid/bgrid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index e71e66e..749f07f 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1226,9 +1226,10 @@ class BathyGrid(BaseGrid):
             if tile:
                 row, col = self._tile_idx_to_row_col(cnt)
                 tile, newdata, geo, data_col, data_row, tile_cell_count = self.get_tile_data(row, col, resolution, layer, nodatavalue, z_positive_up)
-                for cnt, lyr in enumerate(newdata.keys()):
-                    data[cnt][data_col:data_col + tile_cell_count, data_row:data_row + tile_cell_count] = newdata[lyr]
-                    empty = False
+                for lyrcnt, lyr in enumerate(layer):
+                    if lyr in newdata:
+                        data[lyrcnt][data_col:data_col + tile_cell_count, data_row:data_row + tile_cell_count] = newdata[lyr]
+                        empty = False
         if empty:
             data = None
         return data
-- 
2.43.0


From 87a5ea203d815029389e71c8a34bb9ffb41f4734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 09/56] fix: cell boundaries include the last edge of the grid,
 so the last row/column can be queried

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 749f07f..0355734 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1794,8 +1794,8 @@ class BathyGrid(BaseGrid):
             x = (np.arange(self.min_x, self.max_x, resolution) + resolution / 2)[new_mins[1]:new_maxs[1]]
             y = (np.arange(self.min_y, self.max_y, resolution) + resolution / 2)[new_mins[0]:new_maxs[0]]
         else:  # get the cell boundaries for each cell, will be one longer than the node locations option (this is what matplotlib pcolormesh wants)
-            x = np.arange(self.min_x, self.max_x, resolution)[new_mins[1]:new_maxs[1] + 1]
-            y = np.arange(self.min_y, self.max_y, resolution)[new_mins[0]:new_maxs[0] + 1]
+            x = np.arange(self.min_x, self.max_x + resolution, resolution)[new_mins[1]:new_maxs[1] + 1]
+            y = np.arange(self.min_y, self.max_y + resolution, resolution)[new_mins[0]:new_maxs[0] + 1]
         return x, y, surfs, new_mins, new_maxs
 
     def _validate_layer_query(self, x_loc: np.array, y_loc: np.array, layer: str = 'depth', resolution: float = None,
-- 
2.43.0


From 63ef57fe2cdaa5c79f98f1800a2bb8137df6efb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 10/56] fix: trim layers to the real values for integer layers
 and for a nodatavalue other than NaN

---
 bathygrid/bgrid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 0355734..5fa5838 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1263,10 +1263,13 @@ class BathyGrid(BaseGrid):
 
         data = self.get_layers_by_name(layer, resolution, nodatavalue=nodatavalue, z_positive_up=z_positive_up)
         dat = data[0]  # just use the first layer, the mins/maxs should be the same for all layers
+        first_layer = layer if isinstance(layer, str) else layer[0]
 
-        notnan = ~np.isnan(dat)
-        rows = np.any(notnan, axis=1)
-        cols = np.any(notnan, axis=0)
+        hasdata = ~np.isnan(dat) & (dat != nodatavalue)
+        if first_layer in ['density', 'hypothesis_count']:  # integer layers are zero where there is no data
+            hasdata &= dat != 0
+        rows = np.any(hasdata, axis=1)
+        cols = np.any(hasdata, axis=0)
         rmin, rmax = np.where(rows)[0][[0, -1]]
         cmin, cmax = np.where(cols)[0][[0, -1]]
 
-- 
2.43.0


From dbb5607c74ccd9b7c5c0eddb45279e3b96727ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 11/56] fix: compare both dimensions when deciding if the tiles
 fit in one chunk

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 5fa5838..eee09ff 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1073,7 +1073,7 @@ class BathyGrid(BaseGrid):
         if arr.ndim != 2 or len(chunk_shape) != 2:
             raise NotImplementedError('_split_to_approx_shape: assumes two dimensions')
 
-        if chunk_shape >= arr.shape:
+        if chunk_shape[0] >= arr.shape[0] and chunk_shape[1] >= arr.shape[1]:
             valid = arr != None
             if valid.any():
                 return [arr[valid].tolist()]
-- 
2.43.0


From 1dad8a6e6d826fe60989c1c8fd6fc9ddfe9395d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 12/56] fix: skip tiles that have no grid at the resolution
 when building chunks of tiles

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index eee09ff..d6dd602 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1169,6 +1169,8 @@ class BathyGrid(BaseGrid):
             curmaxdimension = 0
             for trow, tcol in index_list:
                 tile, data, geo, data_col, data_row, tile_cell_count = self.get_tile_data(trow, tcol, resolution, layer, nodatavalue, z_positive_up)
+                if geo is None:  # tile has not been gridded at this resolution, so it has nothing to contribute to the chunk
+                    continue
                 curdata.append(data)
                 curdcol.append(data_col)
                 curdrow.append(data_row)
-- 
2.43.0


From f801e9552598eab6025591fb348fc99bf2eea09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 13/56] fix: the integer nodatavalue of the density layer does
 not leak into the layers that follow it

---
 bathygrid/bgrid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index d6dd602..9030c95 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1035,16 +1035,17 @@ class BathyGrid(BaseGrid):
         minrow = min(row_indices)
         curdrow = [row - minrow for row in row_indices]
         for lyr in layers:
+            lyr_nodata = nodatavalue
             if lyr in ['depth', 'intensity', 'vertical_uncertainty', 'horizontal_uncertainty', 'total_uncertainty', 'hypothesis_ratio']:
                 # ensure nodatavalue is a float32
-                nodatavalue = np.float32(nodatavalue)
+                lyr_nodata = np.float32(nodatavalue)
             elif lyr in ['density', 'hypothesis_count']:
                 # density has to have an integer based nodatavalue
                 try:
-                    nodatavalue = int(nodatavalue)
+                    lyr_nodata = int(nodatavalue)
                 except ValueError:
-                    nodatavalue = 0
-            finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), nodatavalue)
+                    lyr_nodata = 0
+            finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), lyr_nodata)
             for cnt, data in enumerate(layerdata):
                 if lyr in data:
                     finaldata[lyr][curdcol[cnt]:curdcol[cnt] + cells_per_tile, curdrow[cnt]:curdrow[cnt] + cells_per_tile] = data[lyr]
-- 
2.43.0


From 2d3d4f0cb77cbc9274e9262301316720f4b82b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 14/56] fix: report the maximum dimension of a chunk that is a
 single tile

---
 bathygrid/bgrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 9030c95..29c926e 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1181,9 +1181,9 @@ class BathyGrid(BaseGrid):
                 else:
                     # merge the georeference of the two datasets, everything remains the same except the origin, which is now the global origin
                     curgeo = [min([curgeo[0], geo[0]]), curgeo[1], curgeo[2], max([curgeo[3], geo[3]]), curgeo[4], curgeo[5]]
-                    # here we take the greatest dimension currently
-                    curmaxdimension = max((max(curdcol) - min(curdcol) + tile_cell_count) * resolution,
-                                          (max(curdrow) - min(curdrow) + tile_cell_count) * resolution)
+                # here we take the greatest dimension currently
+                curmaxdimension = max((max(curdcol) - min(curdcol) + tile_cell_count) * resolution,
+                                      (max(curdrow) - min(curdrow) + tile_cell_count) * resolution)
             if all([d == {} for d in curdata]):  # skipping empty chunk, happens with VR where the tile has no data at this resolution
                 continue
             assert all(curcellcount)  # all the cell counts per tile should be the same for the one resolution
-- 
2.43.0


From 948ac91360de1d808fce8543cad934d007915d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 15/56] fix: mean_depth is the mean of all points in the grid,
 not of the points that were added last

---
 bathygrid/bgrid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 29c926e..3a015e1 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -402,13 +402,15 @@ class BathyGrid(BaseGrid):
 
     def _update_mean_depth(self):
         """
-        Calculate the mean depth of all loaded points before they are loaded into tiles and cleared from this object
+        Calculate the mean depth of all points in the grid from the mean depth / point count of each tile
         """
 
-        if self.data is None or not self.data['z'].any():
+        point_count = self.points_count
+        if not point_count:
             self.mean_depth = 0.0
         else:
-            self.mean_depth = np.round(self.data['z'].mean(), 3)
+            depth_sum = sum(tile.mean_depth * tile.points_count for tile in self.tiles.flat if tile)
+            self.mean_depth = np.round(float(depth_sum / point_count), 3)
 
     def _calculate_resolution_lookup(self):
         """
@@ -752,6 +754,7 @@ class BathyGrid(BaseGrid):
                         self._load_tile(cnt, only_points=True)
             if self.is_empty:
                 self.tiles = None
+            self._update_mean_depth()
             self._save_grid()
 
     def get_tiles_by_resolution(self, resolution: float = None, layer: Union[str, list] = 'depth',
-- 
2.43.0


From 8205902854af35256ecb0671904fc99b1afaf4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 16/56] fix: drop the existing tile mask when a new grid is
 started after all points were removed

---
 bathygrid/grids.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index 86bbbfe..daeec4e 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -128,6 +128,9 @@ class BaseGrid(Grid):
             x_corner_coord = np.argwhere(tile_x_origin == self.tile_x_origin[0][0])[0][1]
             self.existing_tile_mask[y_corner_coord:y_corner_coord + existing_tile_shape[0], x_corner_coord:x_corner_coord + existing_tile_shape[1]] = True
 
+        else:  # starting a new grid, a mask from before all points were removed does not match this grid
+            self.existing_tile_mask = None
+
         self.tile_x_origin, self.tile_y_origin = tile_x_origin, tile_y_origin
 
         self.tile_edges_x = np.append(tx_origins, tx_origins[-1] + self.tile_size)
-- 
2.43.0


From c9e9ce40ffea2f092b7fef48572f7b266fcde570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 17/56] fix: extents of a grid with an origin other than zero
 are relative to that origin

---
 bathygrid/grids.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index daeec4e..5ff8b8b 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -91,10 +91,10 @@ class BaseGrid(Grid):
         If this BathyGrid is allowed to grow, we extend the boundaries by integer increments of tile_size
         """
         if self.can_grow:
-            nearest_lower_x = np.floor((self.min_x - self.origin_x) / self.tile_size) * self.tile_size
-            nearest_higher_x = np.ceil((self.max_x - self.origin_x) / self.tile_size) * self.tile_size
-            nearest_lower_y = np.floor((self.min_y - self.origin_y) / self.tile_size) * self.tile_size
-            nearest_higher_y = np.ceil((self.max_y - self.origin_y) / self.tile_size) * self.tile_size
+            nearest_lower_x = np.floor((self.min_x - self.origin_x) / self.tile_size) * self.tile_size + self.origin_x
+            nearest_higher_x = np.ceil((self.max_x - self.origin_x) / self.tile_size) * self.tile_size + self.origin_x
+            nearest_lower_y = np.floor((self.min_y - self.origin_y) / self.tile_size) * self.tile_size + self.origin_y
+            nearest_higher_y = np.ceil((self.max_y - self.origin_y) / self.tile_size) * self.tile_size + self.origin_y
             if nearest_higher_x == self.max_x:  # higher value cant be equal, our binning relies on it being less than
                 nearest_higher_x += self.tile_size
             if nearest_higher_y == self.max_y:
-- 
2.43.0


From 76499a547e296cf781a21f21624ce05a6b310a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 18/56] fix: neighbor points of a variable resolution tile,
 skip missing subtiles and use the edge of the neighbor

---
 bathygrid/bgrid.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 3a015e1..d2f783c 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -966,8 +966,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:  # for variable resolution, tils will be a list of grids, get all tiles in the grid
                 for subtil in tils[0].tiles.flat:
-                    newdata = subtil.data[subtil.data['y'] >= (subtil.max_y - buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['y'] >= (tils[0].max_y - buffer_value)]
+                        data.append(newdata)
         # right
         if tils[1]:
             if isinstance(tils[1], Tile):  # single resolution option
@@ -975,8 +976,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[1].tiles.flat:
-                    newdata = subtil.data[subtil.data['x'] <= (subtil.min_x + buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['x'] <= (tils[1].min_x + buffer_value)]
+                        data.append(newdata)
         # down
         if tils[2]:
             if isinstance(tils[2], Tile):  # single resolution option
@@ -984,8 +986,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[2].tiles.flat:
-                    newdata = subtil.data[subtil.data['y'] <= (subtil.min_y + buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['y'] <= (tils[2].min_y + buffer_value)]
+                        data.append(newdata)
         # left
         if tils[3]:
             if isinstance(tils[3], Tile):  # single resolution option
@@ -993,8 +996,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[3].tiles.flat:
-                    newdata = subtil.data[subtil.data['x'] >= (subtil.max_x - buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['x'] >= (tils[3].max_x - buffer_value)]
+                        data.append(newdata)
         if data:
             data = np.concatenate(data)
             if not isinstance(data, np.ndarray):
-- 
2.43.0


From 5030b41a3c5a17937f737019e86b78ac7c640db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 19/56] fix: depths beyond the resolution lookup get the
 coarsest resolution, not the finest

---
 bathygrid/bgrid.py | 3 ++-
 bathygrid/tile.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index d2f783c..1f729a4 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -427,7 +427,8 @@ class BathyGrid(BaseGrid):
             raise ValueError('Bathygrid: Unable to calculate resolution when mean_depth is None')
         dpth_keys = list(depth_resolution_lookup.keys())
         # get next positive value in keys of resolution lookup
-        range_index = np.argmax((np.array(dpth_keys) - self.mean_depth) > 0)
+        range_index = np.searchsorted(dpth_keys, self.mean_depth, side='right')
+        range_index = min(range_index, len(dpth_keys) - 1)  # deeper than the lookup, use the coarsest resolution
         calc_resolution = depth_resolution_lookup[dpth_keys[range_index]]
         # ensure that resolution does not exceed the tile size for obvious reasons
         clipped_rez = min(self.tile_size, calc_resolution)
diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 990b734..528a539 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -248,7 +248,8 @@ class SRTile(Tile):
             raise ValueError('SRTile: Unable to calculate resolution when there are no points in the tile')
         dpth_keys = list(depth_resolution_lookup.keys())
         # get next positive value in keys of resolution lookup
-        range_index = np.argmax((np.array(dpth_keys) - self.mean_depth) > 0)
+        range_index = np.searchsorted(dpth_keys, self.mean_depth, side='right')
+        range_index = min(range_index, len(dpth_keys) - 1)  # deeper than the lookup, use the coarsest resolution
         calc_resolution = depth_resolution_lookup[dpth_keys[range_index]]
         # ensure that resolution does not exceed the tile size for obvious reasons
         clipped_rez = min(self.width, calc_resolution)
-- 
2.43.0


From e193bb0336bc28aaabd82d9ee4204a2cca5fc960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 20/56] fix: csv export writes elevations for grids with a
 positive up vertical reference

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 1f729a4..2b9b0c9 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2275,7 +2275,7 @@ class OperationalGrid(BathyGrid):
             dfmt = ['%.3f', '%.3f']
             for cnt, lname in enumerate(lyrs):
                 if lname == 'depth' and z_positive_up:
-                    if self.mean_depth > 0:  # currently positive down
+                    if self.mean_depth > 0 or self.positive_up:  # layer is currently positive down
                         lyrdata[cnt] = lyrdata[cnt] * -1
                     lname = 'elevation'
                 dataset += [lyrdata[cnt].ravel()]
-- 
2.43.0


From e04eaf68b869ddecc79d45855f2d0663d934292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 21/56] fix: a grid is gridded if any of its tiles is, not only
 if the first tile is

---
 bathygrid/bgrid.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 2b9b0c9..e51df42 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -104,8 +104,8 @@ class BathyGrid(BaseGrid):
     @property
     def no_grid(self):
         """
-        Simple check to see if this instance contains gridded data or not.  Looks for the first existing Tile and checks
-        if that Tile has a grid.
+        Simple check to see if this instance contains gridded data or not.  Looks for the first existing Tile that has a
+        grid.
 
         Returns
         -------
@@ -119,13 +119,11 @@ class BathyGrid(BaseGrid):
         for tile in self.tiles.flat:
             if tile:
                 if isinstance(tile, BathyGrid):
-                    for subtile in tile.tiles.flat:
-                        if subtile:
-                            tile = subtile
-                if tile.cells:
+                    if not tile.no_grid:
+                        return False
+                elif tile.cells:
                     return False
-                else:
-                    return True
+        return True
 
     @property
     def has_vertical_uncertainty(self):
@@ -196,14 +194,15 @@ class BathyGrid(BaseGrid):
     @property
     def layer_names(self):
         """
-        Get the existing layer names in the tiles by checking the first real tile
+        Get the existing layer names in the tiles by checking the first real tile that has a grid
         """
 
         if self.tiles is not None:
             for tile in self.tiles.flat:
                 if tile:
                     layernames = tile.layer_names
-                    return layernames
+                    if layernames:
+                        return layernames
         return []
 
     @property
@@ -849,6 +848,8 @@ class BathyGrid(BaseGrid):
         data_col, data_row = row_number * tile_cell_count, column_number * tile_cell_count
         geo = tile.get_geotransform(resolution)
         data = {}
+        if isinstance(tile, BathyGrid) and tile.no_grid:  # subgrid has not been gridded yet, there is no data to get
+            layer = []
         for cnt, lyr in enumerate(layer):
             newdata = tile.get_layers_by_name(lyr, resolution, nodatavalue=nodatavalue, z_positive_up=z_positive_up)
             if newdata is not None:
-- 
2.43.0


From 21a9974459ef61b668cc84625d4eb35eab4208fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 22/56] fix: depth based resolution works when the mean depth
 is zero, and for the zarr variable resolution grid

---
 bathygrid/bgrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index e51df42..61c39cd 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -15,7 +15,7 @@ from bathygrid.grids import BaseGrid
 from bathygrid.tile import SRTile, Tile
 from bathygrid.utilities import bin2d_with_indices, dask_find_or_start_client, print_progress_bar, \
     utc_seconds_to_formatted_string, formatted_string_to_utc_seconds, create_folder, gdal_raster_create, return_gdal_version
-from bathygrid.grid_variables import depth_resolution_lookup, maximum_chunk_dimension, sr_grid_root_names
+from bathygrid.grid_variables import depth_resolution_lookup, maximum_chunk_dimension, sr_grid_root_names, vr_grid_root_names
 from bathygrid.__version__ import __version__ as bathyvers
 
 
@@ -422,7 +422,7 @@ class BathyGrid(BaseGrid):
             resolution to use at the existing mean_depth
         """
 
-        if not self.mean_depth:
+        if self.is_empty:
             raise ValueError('Bathygrid: Unable to calculate resolution when mean_depth is None')
         dpth_keys = list(depth_resolution_lookup.keys())
         # get next positive value in keys of resolution lookup
@@ -1526,7 +1526,7 @@ class BathyGrid(BaseGrid):
         if resolution is None:
             auto_resolution = auto_resolution_mode.lower()
             self.grid_resolution = 'AUTO_{}'.format(auto_resolution_mode).upper()
-            if self.name != 'VRGridTile_Root':
+            if self.name not in vr_grid_root_names:
                 if auto_resolution == 'depth':
                     resolution = self._calculate_resolution_lookup()
                 elif auto_resolution == 'density':
-- 
2.43.0


From 6478bb73ea03d006c70cc722dd8ff6a68cc83e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 23/56] fix: layer_values_at_xy accepts a tuple for the y
 locations

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 61c39cd..efee878 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1821,7 +1821,7 @@ class BathyGrid(BaseGrid):
         asarrays = True
         if isinstance(x_loc, (tuple, list)):
             x_loc = np.array(list(x_loc))
-        if isinstance(y_loc, list):
+        if isinstance(y_loc, (tuple, list)):
             y_loc = np.array(list(y_loc))
         if isinstance(x_loc, np.ndarray) and isinstance(y_loc, np.ndarray) and x_loc.shape != y_loc.shape:
             raise ValueError('x and y locations must be the same shape, x_loc:{} y_loc:{}'.format(x_loc, y_loc))
-- 
2.43.0


From fd7d67b517f869e13774bcfef6197ffddd6ec055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 24/56] fix: data rejected for its vertical reference does not
 set the coordinate system of the grid

---
 bathygrid/bgrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index efee878..3d8eaba 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -370,12 +370,12 @@ class BathyGrid(BaseGrid):
             if self.epsg != int(epsg):
                 raise ValueError('BathyGrid: Found existing coordinate system {}, new coordinate system {} must match'.format(self.epsg,
                                                                                                                               epsg))
-        if epsg:
-            self.epsg = int(epsg)
         if self.vertical_reference and (self.vertical_reference != vertical_reference):
-            if not (self.vertical_reference.find('MLLW') != -1 and vertical_reference.find('MLLW') != -1):
+            if not (vertical_reference and self.vertical_reference.find('MLLW') != -1 and vertical_reference.find('MLLW') != -1):
                 raise ValueError('BathyGrid: Found existing vertical reference {}, new vertical reference {} must match'.format(self.vertical_reference,
                                                                                                                                 vertical_reference))
+        if epsg:
+            self.epsg = int(epsg)
         if min_time:
             min_time = int(min_time)
             if self.min_time:
-- 
2.43.0


From a28417528ebe536ae3bfb440568501614e76d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 25/56] fix: create_folder works with a folder name that is
 relative to the current directory

---
 bathygrid/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index 9f0dd53..0283c34 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -86,7 +86,8 @@ def create_folder(output_directory: str, fldrname: str):
         path to the created folder
     """
 
-    os.makedirs(output_directory, exist_ok=True)
+    if output_directory:  # empty when the folder is relative to the current directory
+        os.makedirs(output_directory, exist_ok=True)
     tstmp = datetime.utcnow().strftime('%Y%m%d_%H%M%S')
     try:
         fldr_path = os.path.join(output_directory, fldrname)
-- 
2.43.0


From 7939f7e2fd536b311b7906749a41b4bd954c91a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 26/56] fix: create_folder builds a new folder when the folder
 with the time tag exists already

---
 bathygrid/utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index 0283c34..e0ed837 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -97,6 +97,10 @@ def create_folder(output_directory: str, fldrname: str):
             fldr_path = os.path.join(output_directory, fldrname)
         else:
             fldr_path = os.path.join(output_directory, fldrname + '_{}'.format(tstmp))
+            cnt = 1
+            while os.path.exists(fldr_path):  # time tag only goes to seconds
+                fldr_path = os.path.join(output_directory, fldrname + '_{}_{}'.format(tstmp, cnt))
+                cnt += 1
             os.mkdir(fldr_path)
     return fldr_path
 
-- 
2.43.0


From 41c9ac895c0bca783b91e53a5e77c16a0fb595f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 27/56] fix: create_grid validates the options before it
 creates the folder

---
 bathygrid/convenience.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bathygrid/convenience.py b/bathygrid/convenience.py
index aba8525..8668681 100644
--- a/bathygrid/convenience.py
+++ b/bathygrid/convenience.py
@@ -36,12 +36,6 @@ def _validate_load_path(folder_path: str):
 
 
 def _validate_create_options(folder_path: str, grid_type: str, grid_backend: str, tile_size: float, subtile_size: float):
-    if folder_path:
-        fpath, fname = os.path.split(folder_path)
-        folderpath = create_folder(fpath, fname)
-    else:
-        folderpath = ''
-
     if grid_type not in ['single_resolution', 'variable_resolution_tile']:
         raise ValueError("Grid type {} invalid, must be one of ['single_resolution', 'variable_resolution_tile']".format(grid_type))
     if grid_backend not in ['numpy', 'zarr']:
@@ -50,6 +44,12 @@ def _validate_create_options(folder_path: str, grid_type: str, grid_backend: str
         raise ValueError('Tile size {} must be a power of two'.format(tile_size))
     if grid_type == 'variable_resolution_tile' and not is_power_of_two(subtile_size):
         raise ValueError('Sub tile size {} must be a power of two'.format(subtile_size))
+
+    if folder_path:
+        fpath, fname = os.path.split(folder_path)
+        folderpath = create_folder(fpath, fname)
+    else:
+        folderpath = ''
     return folderpath
 
 
-- 
2.43.0


From ccfcd5ee9426b86e238bab84adba181002be04f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 28/56] fix: saving works for a grid without points, and
 save/load without a folder path is not silently ignored

---
 bathygrid/backends.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index fe0da5b..f5d835a 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -254,9 +254,15 @@ class BaseStorage(OperationalGrid):
         progress_bar
             if True, will display a progress bar
         """
+        if not folderpath:
+            folderpath = self.output_folder
+            if not folderpath:
+                raise ValueError('Grid has not been saved before, you must provide a folder path to save.')
         if folderpath:
             self.output_folder = folderpath
             self._save_grid()
+            if self.tiles is None:  # no points in this grid, the metadata is all there is
+                return
             if progress_bar:
                 print_progress_bar(0, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
             if self.sub_type in ['srtile', 'quadtile']:
@@ -327,6 +333,10 @@ class BaseStorage(OperationalGrid):
         folderpath
             base folder for the saved bathygrid instance
         """
+        if not folderpath:
+            folderpath = self.output_folder
+            if not folderpath:
+                raise ValueError('Grid has not been saved before, you must provide a folder path to load.')
         if folderpath:
             self.output_folder = folderpath
             self._load_grid()
-- 
2.43.0


From 272f38934646ec41e5d9e5eceb18a5645d72dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 29/56] fix: resolutions of the grid do not include those of
 tiles that were removed with their points

---
 bathygrid/bgrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 3d8eaba..62f9872 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -754,6 +754,10 @@ class BathyGrid(BaseGrid):
                         self._load_tile(cnt, only_points=True)
             if self.is_empty:
                 self.tiles = None
+                self.resolutions = []
+            else:  # drop the resolutions that were only found in the removed tiles
+                existing = {rz for tile in self.tiles.flat if tile for rz in tile.resolutions}
+                self.resolutions = [rz for rz in self.resolutions if rz in existing]
             self._update_mean_depth()
             self._save_grid()
 
-- 
2.43.0


From 62430b4a636fc27d869d150a54f459393277224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 30/56] fix: a container query does not leave the container in
 the layers of the grid

---
 bathygrid/tile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 528a539..619ccc4 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -833,6 +833,9 @@ class SRTile(Tile):
             data = np.copy(self.cells[resolution][layer].compute())
         except:
             data = np.copy(self.cells[resolution][layer])
+        if container_query:  # only built for this query, is not a layer of the grid
+            self.cells[resolution].pop(layer)
+            self.cells[resolution].pop(layer + '_density', None)
         if np.count_nonzero(np.isnan(data)) == data.size:
             return None
         if layer.lower() == 'depth' and z_positive_up:
-- 
2.43.0


From 32ae96056fc215f51eca160643bc347a3a553a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 31/56] fix: attribution of a container is not replaced by that
 of a container with the same name and suffix _0

---
 bathygrid/bgrid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 62f9872..fa4f654 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2424,13 +2424,13 @@ class OperationalGrid(BathyGrid):
                 'storage_type': self.storage_type}
         ucontainers = self.return_unique_containers()
         for cont_name in ucontainers:
-            try:  # this works for kluster added containers, that have a suffix with an index
-                data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name + '_0'],
-                                                       'multibeam_lines': self.container[cont_name + '_0']}
+            try:  # this works for all standard container names
+                data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name],
+                                                       'multibeam_lines': self.container[cont_name]}
             except KeyError:
-                try:  # this works for all other standard container names
-                    data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name],
-                                                           'multibeam_lines': self.container[cont_name]}
+                try:  # this works for kluster added containers, that have a suffix with an index
+                    data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name + '_0'],
+                                                           'multibeam_lines': self.container[cont_name + '_0']}
                 except KeyError:
                     nearest_cont_name = [nm for nm in self.container if nm.find(cont_name) != -1]
                     if nearest_cont_name[0]:
-- 
2.43.0


From 9f8488050043789f22157d5ba316c62f5ba48081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 32/56] fix: vertical reference written to the BAG is positive
 up, like the elevations in it

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index fa4f654..4e03e8c 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2368,8 +2368,8 @@ class OperationalGrid(BathyGrid):
             process_step_description = 'Generated By GDAL {}'.format(return_gdal_version())
         if not vert_crs:
             vert_crs = 'VERT_CS["unknown", VERT_DATUM["unknown", 2000]]'
-        vert_crs.replace('"depth (D)",down', '"gravity-related height (H),up')  # WKT2
-        vert_crs.replace('"Depth",DOWN', '"Gravity-related height",UP')  # WKT1
+        vert_crs = vert_crs.replace('"depth (D)",down', '"gravity-related height (H)",up')  # WKT2
+        vert_crs = vert_crs.replace('"Depth",DOWN', '"Gravity-related height",UP')  # WKT1
 
         bag_options = ['VAR_INDIVIDUAL_NAME=' + individual_name, 'VAR_ORGANISATION_NAME=' + organizational_name,
                        'VAR_POSITION_NAME=' + position_name, 'VAR_DATE=' + attr_date, 'VAR_VERT_WKT=' + vert_crs,
-- 
2.43.0


From 1eb3d1c69a0708378faa3165633ab699a0a5db94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 33/56] fix: data without z values or without points is
 rejected before the grid is altered

---
 bathygrid/bgrid.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 4e03e8c..e01d596 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2161,14 +2161,20 @@ class OperationalGrid(BathyGrid):
                 raise ValueError('BathyGrid: numpy array provided for data, but no names were found, array must be a structured array')
             if 'x' not in self.data.dtype.names or 'y' not in self.data.dtype.names:
                 raise ValueError('BathyGrid: numpy structured array provided for data, but "x" or "y" not found in variable names')
+            if 'z' not in self.data.dtype.names:
+                raise ValueError('BathyGrid: numpy structured array provided for data, but "z" not found in variable names')
         elif type(self.data) == xr.Dataset:
-            if 'x' not in self.data:
+            if 'x' not in self.data or 'y' not in self.data:
                 raise ValueError('BathyGrid: xarray Dataset provided for data, but "x" or "y" not found in variable names')
+            if 'z' not in self.data:
+                raise ValueError('BathyGrid: xarray Dataset provided for data, but "z" not found in variable names')
             if self.data['z'].ndim > 1:
                 raise ValueError('BathyGrid: xarray Dataset provided for data, but found multiple dimensions, must be one dimensional: {}'.format(self.data.dims))
             self._convert_dataset()  # internally we just convert xarray dataset to numpy for ease of use
         else:
             raise ValueError('QuadTree: numpy structured array or dask array with "x" and "y" as variable must be provided')
+        if self.data.size == 0:
+            raise ValueError('BathyGrid: no points found in the provided data')
 
     def save(self, folder_path: str = None, progress_bar: bool = True):
         """
-- 
2.43.0


From e91719c087750f012a2697c61e16b685c66167a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 34/56] fix: saving to a folder that was used before clears
 tiles the grid does not have

---
 bathygrid/backends.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index f5d835a..fe04ef2 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -205,6 +205,21 @@ class BaseStorage(OperationalGrid):
         self._clear_tile(tile_folder)
         os.makedirs(tile_folder)
 
+    def _clear_stale_tiles(self):
+        """
+        Saving to a folder that was used before, tiles of the earlier grid that this grid does not have would otherwise
+        be picked up when this grid grows over them.
+        """
+
+        root_folder = os.path.join(self.output_folder, self.name)
+        current_tiles = []
+        if self.tiles is not None:
+            current_tiles = [self._get_tile_folder(root_folder, cnt)[0] for cnt, tile in enumerate(self.tiles.flat) if tile]
+        for fldr in os.listdir(root_folder):
+            tile_folder = os.path.join(root_folder, fldr)
+            if tile_folder not in current_tiles and os.path.exists(os.path.join(tile_folder, 'metadata.json')):
+                self._clear_tile(tile_folder)
+
     def _save_grid(self):
         """
         Save the grid data to disk, grids do not contain points or gridded data (that is in the tiles) so the only
@@ -261,6 +276,7 @@ class BaseStorage(OperationalGrid):
         if folderpath:
             self.output_folder = folderpath
             self._save_grid()
+            self._clear_stale_tiles()
             if self.tiles is None:  # no points in this grid, the metadata is all there is
                 return
             if progress_bar:
-- 
2.43.0


From fef68d0557c1f4e2da6eb7c6f32b7312f9883c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 35/56] fix: georeference of tiles and chunks is kept in double
 precision

---
 bathygrid/bgrid.py | 2 +-
 bathygrid/grids.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index e01d596..568a79b 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -337,7 +337,7 @@ class BathyGrid(BaseGrid):
         [x origin, x pixel size, x rotation, y origin, y rotation, -y pixel size]
         """
 
-        parent_transform = [np.float32(self.min_x), resolution, 0, np.float32(self.max_y), 0, -resolution]
+        parent_transform = [float(self.min_x), resolution, 0, float(self.max_y), 0, -resolution]
 
         return parent_transform
 
diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index 5ff8b8b..df44299 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -310,6 +310,6 @@ class TileGrid(Grid):
         [x origin, x pixel size, x rotation, y origin, y rotation, -y pixel size]
         """
         if resolution in self.cells:
-            return [np.float32(self.min_x), resolution, 0, np.float32(self.max_y), 0, -resolution]
+            return [float(self.min_x), resolution, 0, float(self.max_y), 0, -resolution]
         else:
             return None
-- 
2.43.0


From 55fbc8bf6f6dd39d5f75c6f3db27ed1e1e5f78ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 36/56] fix: density query without resolution looks on in the
 coarser resolutions where the finest has no points

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 568a79b..e333ad5 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1879,6 +1879,8 @@ class BathyGrid(BaseGrid):
                 no_values_yet = np.isnan(layer_values)
             else:
                 no_values_yet = layer_values == nodatavalue
+            if layer in ['density', 'hypothesis_count']:  # integer layers are zero where there is no data
+                no_values_yet = no_values_yet | (layer_values == 0)
             if not no_values_yet.any():  # we have an answer for all xy locations
                 break
             surf_x, surf_y, surfs, new_mins, new_maxs = self.return_surf_xyz(layer, rez, cell_boundaries=True,
-- 
2.43.0


From 5ea8ac3c82bd01bef539e29dc48bb592d40baeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 37/56] fix: gridding that cannot be done is refused before the
 grid is altered

---
 bathygrid/bgrid.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index e333ad5..ad37dc9 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -11,10 +11,11 @@ import h5py
 from pyproj import CRS
 from typing import Union
 
+from bathygrid import algorithms
 from bathygrid.grids import BaseGrid
 from bathygrid.tile import SRTile, Tile
 from bathygrid.utilities import bin2d_with_indices, dask_find_or_start_client, print_progress_bar, \
-    utc_seconds_to_formatted_string, formatted_string_to_utc_seconds, create_folder, gdal_raster_create, return_gdal_version
+    utc_seconds_to_formatted_string, formatted_string_to_utc_seconds, create_folder, gdal_raster_create, return_gdal_version, is_power_of_two
 from bathygrid.grid_variables import depth_resolution_lookup, maximum_chunk_dimension, sr_grid_root_names, vr_grid_root_names
 from bathygrid.__version__ import __version__ as bathyvers
 
@@ -1481,6 +1482,23 @@ class BathyGrid(BaseGrid):
         self.resolutions = np.sort(np.unique(self.resolutions)).tolist()
         self._save_grid()
 
+    def _validate_grid_options(self, algorithm: str, resolution: float, auto_resolution_mode: str):
+        """
+        Ensure that the gridding can be done with the given options, before anything in the grid is altered
+        """
+
+        if algorithm not in ['mean', 'shoalest', 'cube']:
+            raise ValueError("BathyGrid: algorithm {} is not supported, must be one of ['mean', 'shoalest', 'cube']".format(algorithm))
+        if algorithm == 'cube' and not algorithms.cube_enabled:
+            raise EnvironmentError('BathyGrid: unable to grid with cube, bathycube module not found!')
+        if resolution is None:
+            if auto_resolution_mode.lower() not in ['depth', 'density']:
+                raise ValueError("BathyGrid: auto resolution mode {} is not supported, must be one of ['depth', 'density']".format(auto_resolution_mode))
+        elif not is_power_of_two(resolution):
+            raise ValueError('BathyGrid: Resolution must be a power of two, got {}'.format(resolution))
+        elif resolution > (self.subtile_size or self.tile_size):
+            raise ValueError('BathyGrid: Resolution {} is larger than the tile size {}'.format(resolution, self.subtile_size or self.tile_size))
+
     def grid(self, algorithm: str = 'mean', resolution: float = None, clear_existing: bool = False, auto_resolution_mode: str = 'depth',
              regrid_option: str = 'full', use_dask: bool = False, progress_bar: bool = True, grid_parameters: dict = None,
              border_data: np.ndarray = None):
@@ -1519,13 +1537,15 @@ class BathyGrid(BaseGrid):
         if clear_existing and regrid_option == 'update':
             print('Warning: regrid_option=update is ignored when using clear_existing=True.  The entire grid will be re-gridded.')
 
+        if self.is_empty:
+            raise ValueError('BathyGrid: Grid is empty, no points have been added')
+        self._validate_grid_options(algorithm, resolution, auto_resolution_mode)
+
         self.grid_algorithm = algorithm
         self.grid_resolution = resolution
         self.grid_parameters = grid_parameters
         if resolution is not None:
             resolution = float(resolution)
-        if self.is_empty:
-            raise ValueError('BathyGrid: Grid is empty, no points have been added')
         auto_resolution = ''
         if resolution is None:
             auto_resolution = auto_resolution_mode.lower()
-- 
2.43.0


From 9aff880759c6e02ad32be4cc7cb6f109a6f63dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 38/56] fix: the file list of a container is independent of the
 list passed in

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index ad37dc9..d0ba13f 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -393,7 +393,7 @@ class BathyGrid(BaseGrid):
                 self.max_time = utc_seconds_to_formatted_string(max_time)
 
         if file_list:
-            self.container[container_name] = file_list
+            self.container[container_name] = list(file_list)  # the list of the caller is not ours
         else:
             self.container[container_name] = ['Unknown']
         self.container_timestamp[container_name] = datetime.utcnow().strftime('%Y%m%d_%H%M%S')
-- 
2.43.0


From a75774b236a3dee7f1cac8b1a6fb2a6fe60412d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 39/56] fix: a query by position returns the nodatavalue where
 the container has no data at the resolution

---
 bathygrid/bgrid.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index d0ba13f..e2c1952 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1271,7 +1271,7 @@ class BathyGrid(BaseGrid):
         Returns
         -------
         list
-            list of 2dim array of gridded layer trimmed to the minimum bounding box
+            list of 2dim array of gridded layer trimmed to the minimum bounding box, None if there are no real values
         list
             new mins to use
         list
@@ -1279,6 +1279,8 @@ class BathyGrid(BaseGrid):
         """
 
         data = self.get_layers_by_name(layer, resolution, nodatavalue=nodatavalue, z_positive_up=z_positive_up)
+        if data is None:  # ex: querying a container that has no points in the tiles with this resolution
+            return None, [0, 0], [0, 0]
         dat = data[0]  # just use the first layer, the mins/maxs should be the same for all layers
         first_layer = layer if isinstance(layer, str) else layer[0]
 
@@ -1287,6 +1289,8 @@ class BathyGrid(BaseGrid):
             hasdata &= dat != 0
         rows = np.any(hasdata, axis=1)
         cols = np.any(hasdata, axis=0)
+        if not rows.any():
+            return None, [0, 0], [0, 0]
         rmin, rmax = np.where(rows)[0][[0, -1]]
         cmin, cmax = np.where(cols)[0][[0, -1]]
 
@@ -1905,6 +1909,8 @@ class BathyGrid(BaseGrid):
                 break
             surf_x, surf_y, surfs, new_mins, new_maxs = self.return_surf_xyz(layer, rez, cell_boundaries=True,
                                                                              nodatavalue=nodatavalue)
+            if surfs is None:  # nothing in this layer at this resolution
+                continue
 
             if asarrays:
                 query_x_loc = x_loc[no_values_yet]
-- 
2.43.0


From 16a83980b9cc09e0133fe9d8507440dfe1440ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 40/56] fix: reading zarr data that cannot be read raises an
 error instead of returning zeros

---
 bathygrid/backends.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index fe04ef2..7e607b4 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -4,6 +4,10 @@ import time
 import numpy as np
 import json
 import dask.array as da
+try:
+    from zarr.storage import DirectoryStore
+except ImportError:  # renamed in zarr 3
+    from zarr.storage import LocalStore as DirectoryStore
 
 from bathygrid.bgrid import OperationalGrid
 from bathygrid.tile import Tile, SRTile
@@ -591,7 +595,8 @@ class ZarrGrid(BaseStorage):
         if os.path.exists(os.path.join(arr_path, 'zarr_backend_empty')):
             data = da.from_array(np.array([]))
         else:
-            data = da.from_zarr(arr_path)
+            # reading through the directory store, the default store returns zeros for data that it is not able to read
+            data = da.from_zarr(DirectoryStore(arr_path))
         return data
 
     def _save_tile_data(self, tile: Tile, folderpath: str, only_points: bool = False, only_grid: bool = False):
-- 
2.43.0


From a68064fcd52d9db0c74cb775b7b3c13d1f0b8ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 41/56] fix: structured arrays with extra variables or in
 another layout can be combined with other data

---
 bathygrid/bgrid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index e2c1952..b4b455b 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2172,10 +2172,11 @@ class OperationalGrid(BathyGrid):
         For all these reasons, we just convert to numpy.
         """
         allowed_vars = ['x', 'y', 'z', 'tvu', 'thu']
-        dtyp = [(varname, self.data[varname].dtype) for varname in allowed_vars if varname in self.data]
+        available_vars = self.data.dtype.names if isinstance(self.data, np.ndarray) else self.data
+        dtyp = [(varname, self.data[varname].dtype) for varname in allowed_vars if varname in available_vars]
         empty_struct = np.empty(len(self.data['x']), dtype=dtyp)
         for varname, vartype in dtyp:
-            empty_struct[varname] = self.data[varname].values
+            empty_struct[varname] = np.asarray(self.data[varname])
         self.data = empty_struct
 
     def _validate_input_data(self):
@@ -2191,6 +2192,8 @@ class OperationalGrid(BathyGrid):
                 raise ValueError('BathyGrid: numpy structured array provided for data, but "x" or "y" not found in variable names')
             if 'z' not in self.data.dtype.names:
                 raise ValueError('BathyGrid: numpy structured array provided for data, but "z" not found in variable names')
+            if self.data.dtype != np.dtype([(varname, self.data.dtype[varname]) for varname in ['x', 'y', 'z', 'tvu', 'thu'] if varname in self.data.dtype.names]):
+                self._convert_dataset()  # same layout as for the other datasets, so that the points can be combined and saved
         elif type(self.data) == xr.Dataset:
             if 'x' not in self.data or 'y' not in self.data:
                 raise ValueError('BathyGrid: xarray Dataset provided for data, but "x" or "y" not found in variable names')
-- 
2.43.0


From 64c8218f6249a0a70a720c4c37d48f8281b91ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 42/56] fix: creating or saving to a path that ends in a
 separator makes the time tagged folder beside the occupied one, not in it

---
 bathygrid/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index e0ed837..78549b6 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -86,6 +86,8 @@ def create_folder(output_directory: str, fldrname: str):
         path to the created folder
     """
 
+    if not fldrname:  # output_directory is the path of the folder itself, when that ends in a separator
+        output_directory, fldrname = os.path.split(output_directory)
     if output_directory:  # empty when the folder is relative to the current directory
         os.makedirs(output_directory, exist_ok=True)
     tstmp = datetime.utcnow().strftime('%Y%m%d_%H%M%S')
-- 
2.43.0


From edaf22226d66a782c083d782a896d9251829f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 43/56] fix: container queries of CUBE grids gave the engine
 grids without cells and uncertainties of other containers

---
 bathygrid/tile.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 619ccc4..2d52faf 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -408,16 +408,15 @@ class SRTile(Tile):
             hypcnt_grid = self.cells[resolution]['hypothesis_count']
             hypratio_grid = self.cells[resolution]['hypothesis_ratio']
         else:
-            totalunc_grid = np.array([])
-            hypcnt_grid = np.array([])
-            hypratio_grid = np.array([])
+            # the CUBE algorithm fills these as well, they are not layers of the container query
+            totalunc_grid = np.full(self.cells[resolution][self.depth_key].shape, np.float32(np.nan), dtype=np.float32)
+            hypcnt_grid = np.full(self.cells[resolution][self.depth_key].shape, 0, dtype=int)
+            hypratio_grid = np.full(self.cells[resolution][self.depth_key].shape, np.float32(np.nan), dtype=np.float32)
 
         if only_container:
-            depth_val = data['z'][self.container[only_container][0]:self.container[only_container][1]]
             self.cells[resolution][only_container] = np.full(self.cells[resolution][self.depth_key].shape, np.float32(np.nan), dtype=np.float32)
             self.cells[resolution][only_container + '_density'] = np.full(self.cells[resolution][self.depth_key].shape, 0, dtype=int)
-        else:
-            depth_val = data['z']
+        depth_val = data['z']
         if not isinstance(data, np.ndarray):
             depth_val = depth_val.compute()
 
@@ -464,7 +463,9 @@ class SRTile(Tile):
             self.cells[resolution][only_container] = np.round(self.cells[resolution][only_container], 3)
 
     def _run_cube_grid(self, resolution: float, grid_parameters: dict = float, only_container: str = None, border_data: np.ndarray = None):
-        if border_data is not None:
+        if only_container:
+            data = self.data[self.container[only_container][0]:self.container[only_container][1]]
+        elif border_data is not None:
             data = np.concatenate([self.data, border_data])
         else:
             data = self.data
-- 
2.43.0


From 5185f281b957fa54e3b1442db770fda84a615aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 44/56] fix: parallel CUBE gridding takes the same points of
 the neighbouring tiles as sequential gridding

---
 bathygrid/bgrid.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index b4b455b..02071b8 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1460,10 +1460,7 @@ class BathyGrid(BaseGrid):
                     self._load_tile_data_to_memory(tile)
                 tile_indices.append(cnt)
                 if algorithm == 'cube':
-                    if auto_resolution:
-                        border_data = self.get_tile_neighbor_points(tile, tile.width / 10)
-                    else:
-                        border_data = self.get_tile_neighbor_points(tile, min(tile.width / 10, resolution * 3))
+                    border_data = self.get_tile_neighbor_points(tile, tile.width / 10)
                     if grid_border_data is not None:
                         if border_data is not None:
                             border_data = np.concatenate([border_data, grid_border_data])
-- 
2.43.0


From bad4574d5740d2dcce750161e3cc90a19adf3887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 45/56] fix: container queries use the CUBE parameters of the
 latest gridding of the tile

---
 bathygrid/tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 2d52faf..73d4a39 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -728,9 +728,9 @@ class SRTile(Tile):
             self.clear_grid()
         self._clear_temp_data(resolution)
 
+        self.grid_parameters = grid_parameters
         if resolution not in self.cells or algorithm != self.algorithm:
             self.algorithm = algorithm
-            self.grid_parameters = grid_parameters
             self.new_grid(resolution, algorithm)
         if not isinstance(self.cell_edges_x[resolution], np.ndarray):
             self.cell_edges_x[resolution] = self.cell_edges_x[resolution].compute()
-- 
2.43.0


From eb29aa4de7a6b676ac3b9a36d178930c377293b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 46/56] fix: get_chunks_of_tiles failed without a resolution
 instead of using the only one

---
 bathygrid/bgrid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 02071b8..094690c 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1168,6 +1168,12 @@ class BathyGrid(BaseGrid):
             if True, performs numpy fliplr to conform to the GDAL specifications
         """
 
+        if not resolution:
+            if self.no_grid:
+                raise ValueError('BathyGrid: Grid is empty, gridding has not been run yet.')
+            if len(self.resolutions) > 1:
+                raise ValueError('BathyGrid: you must specify a resolution to return layer data when multiple resolutions are found')
+            resolution = self.resolutions[0]
         if isinstance(layer, str):
             layer = [layer]
         if override_maximum_chunk_dimension:
-- 
2.43.0


From dad98d8cb5ff35e1fde272d70ad56aef325eb8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 47/56] fix: get_tile_data read a layer name as a list of
 letters and returned no data

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 094690c..705bd5c 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -846,6 +846,8 @@ class BathyGrid(BaseGrid):
             else:  # this is a positive up/height, so switch this on to flip the z convention of the returned data
                 z_positive_up = True
 
+        if isinstance(layer, str):
+            layer = [layer]
         tile = self.tiles[row_number, column_number]
         tile_cell_count = self.tile_size / resolution
         assert tile_cell_count.is_integer()
-- 
2.43.0


From 65d8d087a3370020cd0d91c682573c929e60d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 48/56] fix: gridding a saved grid with a numpy resolution
 failed after the tiles were written, the metadata takes a plain float

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 705bd5c..262dfb2 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1550,11 +1550,11 @@ class BathyGrid(BaseGrid):
             raise ValueError('BathyGrid: Grid is empty, no points have been added')
         self._validate_grid_options(algorithm, resolution, auto_resolution_mode)
 
+        if resolution is not None:
+            resolution = float(resolution)
         self.grid_algorithm = algorithm
         self.grid_resolution = resolution
         self.grid_parameters = grid_parameters
-        if resolution is not None:
-            resolution = float(resolution)
         auto_resolution = ''
         if resolution is None:
             auto_resolution = auto_resolution_mode.lower()
-- 
2.43.0


From 52258dfda68dfabbaca8d4edfa06d8ea0339cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 49/56] fix: a container query that failed left its layers in
 the tile, where exports and saves found them

---
 bathygrid/tile.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 73d4a39..593071e 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -820,12 +820,17 @@ class SRTile(Tile):
             self._run_slopes(resolution)
         elif container_query:
             if layer in self.container.keys():
-                if self.algorithm == 'mean':
-                    self._run_mean_grid(resolution, only_container=layer)
-                elif self.algorithm == 'shoalest':
-                    self._run_shoalest_grid(resolution, only_container=layer)
-                elif self.algorithm == 'cube':
-                    self._run_cube_grid(resolution, self.grid_parameters, only_container=layer)
+                try:
+                    if self.algorithm == 'mean':
+                        self._run_mean_grid(resolution, only_container=layer)
+                    elif self.algorithm == 'shoalest':
+                        self._run_shoalest_grid(resolution, only_container=layer)
+                    elif self.algorithm == 'cube':
+                        self._run_cube_grid(resolution, self.grid_parameters, only_container=layer)
+                except Exception:  # do not leave the layers of a query that failed in the tile
+                    self.cells[resolution].pop(layer, None)
+                    self.cells[resolution].pop(layer + '_density', None)
+                    raise
             else:
                 self.cells[resolution][layer] = np.full_like(self.cells[resolution][self.depth_key], nodatavalue)
         if layer not in self.cells[resolution]:
-- 
2.43.0


From 1424ecaf1a787c748eb884f781cc5d41b560f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 50/56] fix: positions of a layer were not found with a no data
 value that single precision rounds

---
 bathygrid/bgrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 262dfb2..24d12a2 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1902,6 +1902,10 @@ class BathyGrid(BaseGrid):
             1d array of the same size as x_loc/y_loc with the layer values at the locations
         """
 
+        # same no data value as in the layers, to find the values that are still missing
+        if layer in ['density', 'hypothesis_count'] and not np.isnan(nodatavalue):
+            nodatavalue = int(nodatavalue)
+        nodatavalue = np.float32(nodatavalue)
         asarrays, query_resolution, layer_values, x_loc, y_loc = self._validate_layer_query(x_loc, y_loc, layer, resolution, nodatavalue)
         for rez in query_resolution:
             if np.isnan(nodatavalue):
-- 
2.43.0


From 4ae9324d3aba3da942a0df8db9d685ccf84c7e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:22 +0000
Subject: [PATCH 51/56] fix: get_layers_trimmed did not trim integer layers
 with a no data value that is not a whole number

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 24d12a2..6404667 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1295,6 +1295,8 @@ class BathyGrid(BaseGrid):
         hasdata = ~np.isnan(dat) & (dat != nodatavalue)
         if first_layer in ['density', 'hypothesis_count']:  # integer layers are zero where there is no data
             hasdata &= dat != 0
+            if not np.isnan(nodatavalue):
+                hasdata &= dat != int(nodatavalue)
         rows = np.any(hasdata, axis=1)
         cols = np.any(hasdata, axis=0)
         if not rows.any():
-- 
2.43.0


From 71b146a4a42b72de4333d078d63f96775a33cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 52/56] fix: layer_values_at_xy raised an error for positions
 given as numpy numbers

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 6404667..541a9a5 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1860,7 +1860,7 @@ class BathyGrid(BaseGrid):
             y_loc = np.array(list(y_loc))
         if isinstance(x_loc, np.ndarray) and isinstance(y_loc, np.ndarray) and x_loc.shape != y_loc.shape:
             raise ValueError('x and y locations must be the same shape, x_loc:{} y_loc:{}'.format(x_loc, y_loc))
-        if isinstance(x_loc, (float, int)) or isinstance(y_loc, (float, int)):
+        if isinstance(x_loc, (float, int, np.number)) or isinstance(y_loc, (float, int, np.number)):
             try:
                 x_loc = float(x_loc)
                 y_loc = float(y_loc)
-- 
2.43.0


From e8a3777fcef54bcd03d85131bf3f566f6d54114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:45 +0000
Subject: [PATCH 53/56] fix: calculate_slopes: fit the plane relative to the
 center of the points, with full coordinates the fit is wrong for cells with
 many points

---
 bathygrid/algorithms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bathygrid/algorithms.py b/bathygrid/algorithms.py
index d0bab15..e4f1594 100644
--- a/bathygrid/algorithms.py
+++ b/bathygrid/algorithms.py
@@ -268,8 +268,10 @@ def calculate_slopes(x: np.array, y: np.array, z: np.array, cell_indices: np.arr
     y_split = np.split(y[cell_sort], uidx)[1:]
 
     for row, col, x_cell, y_cell, z_cell in zip(urow, ucol, x_split, y_split, z_split):
-        # following equation of plane ax + by + c = z we set up the Ax = B matrices and do the least squares fit
-        a_data = np.column_stack([x_cell, y_cell, np.ones(x_cell.shape[0], dtype=np.float32)])
+        # following equation of plane ax + by + c = z we set up the Ax = B matrices and do the least squares fit, relative
+        #   to the center of the points.  With full eastings/northings the fit drops to a lower rank for cells with many points
+        x_center, y_center = x_cell.mean(), y_cell.mean()
+        a_data = np.column_stack([x_cell - x_center, y_cell - y_center, np.ones(x_cell.shape[0], dtype=np.float32)])
         b_data = np.column_stack([z_cell])
         fit, residual, rnk, s = np.linalg.lstsq(a_data, b_data, rcond=None)
 
@@ -278,7 +280,7 @@ def calculate_slopes(x: np.array, y: np.array, z: np.array, cell_indices: np.arr
         # y slope is the change in z in the y direction, which is the b parameter in z = ax + by + c (or the second entry in fit)
         y_slope_grid[row, col] = fit[1][0]
         if visualize:
-            lstsq_grid[row, col] = fit[0] * lstsq_x[row, col] + fit[1] * lstsq_y[row, col] + fit[2]
+            lstsq_grid[row, col] = fit[0] * (lstsq_x[row, col] - x_center) + fit[1] * (lstsq_y[row, col] - y_center) + fit[2]
     if visualize:
         ax.plot_wireframe(lstsq_x.T, lstsq_y.T, lstsq_grid.T, color='k')
         ax.set_xlabel('x')
-- 
2.43.0


From d5beca7c759a4408427df8bd096dce1627189f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:45 +0000
Subject: [PATCH 54/56] fix: get_tile_boundaries: keep the full coordinates,
 single precision moves the tile edges by half a meter in UTM

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 541a9a5..7bfa43c 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -881,8 +881,8 @@ class BathyGrid(BaseGrid):
         """
 
         cellboundaries_x, cellboundaries_y = np.meshgrid(self.tile_edges_x, self.tile_edges_y)
-        total_x = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5), dtype=np.float32)
-        total_y = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5), dtype=np.float32)
+        total_x = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5), dtype=np.float64)
+        total_y = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5), dtype=np.float64)
         total_x[:, ::5] = cellboundaries_x
         total_y[:, ::5] = cellboundaries_y
         total_x[:, 1::5] = cellboundaries_x + self.tile_size
-- 
2.43.0


From 8300de5344254208c38af73f08372c7ce34271c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:33 +0000
Subject: [PATCH 55/56] fix: return_attribution: return lists that the caller
 can alter, not those of the grid

---
 bathygrid/bgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 7bfa43c..ad5c558 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1,4 +1,5 @@
 import os
+from copy import deepcopy
 from dask.distributed import wait, progress
 import matplotlib.pyplot as plt
 from xml.etree import ElementTree as et
@@ -2486,4 +2487,4 @@ class OperationalGrid(BathyGrid):
                                                                           'multibeam_lines': self.container[nearest_cont_name[0]]}
                     else:
                         raise ValueError('Unable to find entry for container {}, if you have a suffix with a _ and a number, bathygrid will interpret that as an index starting with 0'.format(cont_name))
-        return data
+        return deepcopy(data)  # the lists of files and resolutions are those of the grid, return something that the caller can alter
-- 
2.43.0


From 4d9b2cc3fb6870211f5e77bb49d0b8fc535a4ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:16 +0000
Subject: [PATCH 56/56] fix: keep the folder of a grid absolute, a relative one
 is lost when the current directory changes

---
 bathygrid/backends.py  | 4 ++--
 bathygrid/utilities.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 7e607b4..429fb97 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -278,7 +278,7 @@ class BaseStorage(OperationalGrid):
             if not folderpath:
                 raise ValueError('Grid has not been saved before, you must provide a folder path to save.')
         if folderpath:
-            self.output_folder = folderpath
+            self.output_folder = os.path.abspath(folderpath)  # remains valid when the current directory changes
             self._save_grid()
             self._clear_stale_tiles()
             if self.tiles is None:  # no points in this grid, the metadata is all there is
@@ -358,7 +358,7 @@ class BaseStorage(OperationalGrid):
             if not folderpath:
                 raise ValueError('Grid has not been saved before, you must provide a folder path to load.')
         if folderpath:
-            self.output_folder = folderpath
+            self.output_folder = os.path.abspath(folderpath)  # remains valid when the current directory changes
             self._load_grid()
             if self.sub_type in ['srtile', 'quadtile']:
                 for idx in range(self.tiles.size):
diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index 78549b6..4d0c17b 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -104,7 +104,7 @@ def create_folder(output_directory: str, fldrname: str):
                 fldr_path = os.path.join(output_directory, fldrname + '_{}_{}'.format(tstmp, cnt))
                 cnt += 1
             os.mkdir(fldr_path)
-    return fldr_path
+    return os.path.abspath(fldr_path)  # remains valid when the current directory changes
 
 
 def is_power_of_two(n: Union[int, float]):
-- 
2.43.0

