From d9cc80bd886b03904f2971f538165df8e63be822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 01/52] fix: keep lazily read ungridded data only once all of
 it has been read

A read that failed on a later file, or while points with missing coordinates
were being dropped, left the part read so far cached as if it was the data.
Coordinates shared between data objects are no longer compressed in place.
---
 cis/data_io/ungridded_data.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 052d0ee..8af6b20 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -274,12 +274,18 @@ class LazyData(object):
         import numpy.ma as ma
         if self._data is None:
             try:
-                # If we were given a list of data managers then we need to concatenate them now...
-                self._data = self.retrieve_raw_data(self._data_manager[0])
+                # If we were given a list of data managers then we need to concatenate them now. Only keep the result
+                #  once all of it has been read, so that a failed read never leaves part of the data behind.
+                data = self.retrieve_raw_data(self._data_manager[0])
                 if len(self._data_manager) > 1:
                     for manager in self._data_manager[1:]:
-                        self._data = ma.concatenate((self._data, self.retrieve_raw_data(manager)), axis=0)
-                self._post_process()
+                        data = ma.concatenate((data, self.retrieve_raw_data(manager)), axis=0)
+                self._data = data
+                try:
+                    self._post_process()
+                except BaseException:
+                    self._data = None
+                    raise
             except MemoryError:
                 raise MemoryError(
                     "Failed to read the ungridded data as there was not enough memory available.\n"
@@ -473,6 +479,8 @@ class UngriddedData(LazyData, CommonData):
         if self._data is None:
             data = self.data
         else:
+            from copy import copy
+            from cis.data_io.Coord import Coord, CoordList
             # Remove any points with missing coordinate values:
             combined_mask = numpy.zeros(self._data.shape, dtype=bool).flatten()
             for coord in self._coords:
@@ -486,16 +494,23 @@ class UngriddedData(LazyData, CommonData):
                 logging.warning(
                     "Identified {n_points} point(s) which were missing values for some or all coordinates - "
                     "these points have been removed from the data.".format(n_points=n_points))
+                # Work on new coordinates, as the existing ones may be shared with other data objects which still
+                #  have all of the points, and only swap them in once everything has been worked out.
+                new_coords = CoordList()
                 for coord in self._coords:
-                    coord.data = numpy.ma.masked_array(coord.data.flatten(), mask=combined_mask).compressed()
-                    coord.update_shape()
-                    coord.update_range()
+                    new_coord = Coord(numpy.ma.masked_array(coord.data.flatten(), mask=combined_mask).compressed(),
+                                      copy(coord.metadata), coord.axis)
+                    new_coord.attributes = coord.attributes
+                    new_coord.update_shape()
+                    new_coord.update_range()
+                    list.append(new_coords, new_coord)
                 if numpy.ma.is_masked(self._data):
                     new_data_mask = numpy.ma.masked_array(self._data.mask.flatten(), mask=combined_mask).compressed()
                     new_data = numpy.ma.masked_array(self._data.data.flatten(), mask=combined_mask).compressed()
-                    self._data = numpy.ma.masked_array(new_data, mask=new_data_mask)
+                    new_data = numpy.ma.masked_array(new_data, mask=new_data_mask)
                 else:
-                    self._data = numpy.ma.masked_array(self._data.flatten(), mask=combined_mask).compressed()
+                    new_data = numpy.ma.masked_array(self._data.flatten(), mask=combined_mask).compressed()
+                self._coords, self._data, self._data_flattened = new_coords, new_data, None
             self.update_shape()
             self.update_range()
 
-- 
2.43.0


From 0b583ed919958188f1225af615d7810e8b4cfd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 02/52] fix: mask missing values when reading netCDF variables

netCDF4 no longer applies _FillValue and missing_value masks when
set_auto_maskandscale is switched off, so missing values were returned as data
and points with missing coordinates were kept.
---
 cis/data_io/netcdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/netcdf.py b/cis/data_io/netcdf.py
index 9cca09b..b1ab6ee 100644
--- a/cis/data_io/netcdf.py
+++ b/cis/data_io/netcdf.py
@@ -259,9 +259,10 @@ def get_data(var):
     """
     import numpy as np
     import logging
-    # Turn off scaling and masking as we're a bit more lenient about the type of valid min/max.
-    var.set_auto_maskandscale(False)
+    # Turn off scaling as we're a bit more lenient about the type of valid min/max, which we apply ourselves below.
+    var.set_auto_scale(False)
     # This will still automatically return a masked array based on _FillValue and missing_value
+    var.set_auto_mask(True)
     data = var[:]
 
     if hasattr(var, 'valid_max'):
-- 
2.43.0


From c847fe85a147e346f5a15555e66e2f7d987c18de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 03/52] fix: apply a scale factor or an offset alone to integer
 netCDF data

The in-place form cannot store the floating point result in an integer array.
---
 cis/data_io/netcdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/netcdf.py b/cis/data_io/netcdf.py
index b1ab6ee..7ddd43a 100644
--- a/cis/data_io/netcdf.py
+++ b/cis/data_io/netcdf.py
@@ -312,9 +312,9 @@ def apply_offset_and_scaling(data, add_offset=None, scale_factor=None):
         logging.debug("Applying 'data = data * {scale} + {offset}' transformation to data.".format(scale=scale_factor,
                                                                                                    offset=add_offset))
     elif scale_factor is not None and scale_factor != 1.0:
-        data *= scale_factor
+        data = data * scale_factor
         logging.debug("Applying 'data *= {scale}' transformation to data.".format(scale=scale_factor))
     elif add_offset is not None and add_offset != 0.0:
-        data += add_offset
+        data = data + add_offset
         logging.debug("Applying 'data += {offset}' transformation to data.".format(offset=add_offset))
     return data
-- 
2.43.0


From 0e99405654b426c72b6e0a9f9a5659a006272b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 04/52] fix: forget the flattened values when coordinates or
 units are converted

After a conversion coords_flattened and the point views could still deliver the
values from before it. Coord.set_longitude_range now also works on a coordinate
which has not been loaded yet.
---
 cis/data_io/Coord.py          | 15 +++++++--------
 cis/data_io/ungridded_data.py |  2 ++
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index 929da80..a35a7d8 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -61,12 +61,12 @@ class Coord(LazyData):
         from cis.time_util import convert_julian_date_to_std_time, cis_standard_time_unit
         # if not self.units.startswith("Julian Date"):
         #     raise ValueError("Time units must be Julian Date for conversion to an Object")
-        self._data = convert_julian_date_to_std_time(self.data)
+        self.data = convert_julian_date_to_std_time(self.data)
         self.units = cis_standard_time_unit
 
     def convert_TAI_time_to_std_time(self, ref):
         from cis.time_util import convert_sec_since_to_std_time, cis_standard_time_unit
-        self._data = convert_sec_since_to_std_time(self.data, ref)
+        self.data = convert_sec_since_to_std_time(self.data, ref)
         self.units = cis_standard_time_unit
 
     def convert_to_std_time(self, time_stamp_info=None):
@@ -82,19 +82,19 @@ class Coord(LazyData):
         from cf_units import Unit
 
         if isinstance(self.units, Unit):
-            self._data = convert_time_since_to_std_time(self.data, self.units)
+            self.data = convert_time_since_to_std_time(self.data, self.units)
         elif str(self.units).lower().startswith('datetime'):
-            self._data = convert_datetime_to_std_time(self.data)
+            self.data = convert_datetime_to_std_time(self.data)
         else:
             if time_stamp_info is None:
                 raise ValueError("File must have time stamp info if converting without 'since' in units definition")
-            self._data = convert_time_using_time_stamp_info_to_std_time(self.data, self.units, time_stamp_info)
+            self.data = convert_time_using_time_stamp_info_to_std_time(self.data, self.units, time_stamp_info)
 
         self.units = cis_standard_time_unit
 
     def convert_datetime_to_standard_time(self):
         from cis.time_util import convert_datetime_to_std_time, cis_standard_time_unit
-        self._data = convert_datetime_to_std_time(self.data)
+        self.data = convert_datetime_to_std_time(self.data)
         self.units = cis_standard_time_unit
 
     def convert_standard_time_to_datetime(self):
@@ -109,8 +109,7 @@ class Coord(LazyData):
 
         :param float range_start: Start of the longitude range
         """
-        self._data = fix_longitude_range(self._data, range_start)
-        self._data_flattened = None
+        self.data = fix_longitude_range(self.data, range_start)
 
     def copy(self, data=None):
         """
diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 8af6b20..56e91a8 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -429,6 +429,8 @@ class LazyData(object):
             # If our units aren't cf_units then they can't be...
             raise ValueError("Unable to convert non-standard LazyData units: {}".format(self.units))
         self.units.convert(self.data, new_units, inplace=True)
+        # The flattened data might be a copy with the old units
+        self._data_flattened = None
         self.units = new_units
 
 
-- 
2.43.0


From 001cc18fcee88679d6029ed0afb21ea7c7c6355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 05/52] fix: do not lose data equal to the default fill value
 in single byte variables

There is no value to spare in a byte, so when nothing is masked such variables
are written without a fill value.
---
 cis/data_io/write_netcdf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/write_netcdf.py b/cis/data_io/write_netcdf.py
index c3a418a..f0fb03d 100644
--- a/cis/data_io/write_netcdf.py
+++ b/cis/data_io/write_netcdf.py
@@ -2,6 +2,7 @@
 Module for writing data to NetCDF files
 """
 from netCDF4 import Dataset
+from numpy.ma import is_masked
 import logging
 
 types = {'int8': 'i1',
@@ -107,8 +108,11 @@ def __create_variable(nc_file, data, prefer_standard_name=False):
     if name not in nc_file.variables:
         # Generate a warning if we have insufficient disk space
         __check_disk_space(nc_file.filepath(), data.data)
-        var = nc_file.createVariable(name, datatype=out_type, dimensions=index_name,
-                                     fill_value=__get_missing_value(data))
+        fill_value = __get_missing_value(data)
+        if fill_value is None and out_type in ('i1', 'u1') and not is_masked(data.data):
+            # Every value of a single byte is a valid one, so don't let the default fill value take one of them away
+            fill_value = False
+        var = nc_file.createVariable(name, datatype=out_type, dimensions=index_name, fill_value=fill_value)
         var = __add_metadata(var, data)
         try:
             var[:] = data.data.flatten()
-- 
2.43.0


From 793c95a17d13423b4e9884391c412b1fc9d17256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 06/52] fix: report the shape of the whole data before it has
 been loaded

The shape of lazily read data was that of its first file (or whatever the HDF
library reports, a list or a number), so make_new_with_same_coordinates made
data of another shape than the coordinates.
---
 cis/data_io/ungridded_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 56e91a8..b82b844 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -227,7 +227,8 @@ class LazyData(object):
 
     @property
     def shape(self):
-        return self.metadata.shape
+        # The shape in the metadata is only that of (the first of) the data on disk until the data has been read
+        return self.data.shape
 
     @shape.setter
     def shape(self, shape):
-- 
2.43.0


From 12f8757d8f21325bbc2936485a288cbba1744a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 07/52] fix: don't close stale HDF handles when a file cannot
 be opened again

---
 cis/data_io/hdf_sd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cis/data_io/hdf_sd.py b/cis/data_io/hdf_sd.py
index 9b03dbe..ab60974 100755
--- a/cis/data_io/hdf_sd.py
+++ b/cis/data_io/hdf_sd.py
@@ -59,6 +59,8 @@ class HDF_SDS(object):
         """
         from pyhdf.SD import SD as SDS
 
+        # Forget any earlier (closed) handles, so that they aren't closed again if this fails
+        self._sd = self._sds = None
         self._sd = SDS(self._filename)
         self._sds = self._sd.select(self._variable)
 
-- 
2.43.0


From b8a8d0c60b35f30263f00009b11fb96008e682aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 08/52] fix: load each layer of a MODIS L2 variable with more
 than two dimensions

All items of the list shared the same data managers, so once loaded every one
of them held the last layer.
---
 cis/data_io/products/MODIS.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/products/MODIS.py b/cis/data_io/products/MODIS.py
index 29d8459..5a9a8e8 100644
--- a/cis/data_io/products/MODIS.py
+++ b/cis/data_io/products/MODIS.py
@@ -296,7 +296,9 @@ class MODIS_L2(AProduct):
         return UngriddedCoordinates(self._create_coord_list(filenames))
 
     def create_data_object(self, filenames, variable):
+        from copy import copy
         from itertools import product
+        from cis.data_io.hdf_sd import HDF_SDS
 
         logging.debug("Creating data object for variable " + variable)
 
@@ -325,10 +327,10 @@ class MODIS_L2(AProduct):
             # Iterate over all but the last two dimensions
             ranges = [range(n) for n in dim_len[:-2]]
             for indices in product(*ranges):
-                for manager in var:
-                    manager._start = list(indices) + [0, 0]
-                    manager._count = [1] * len(indices) + manager.info()[2][-2:]
-                result.append(UngriddedData(var, metadata, coords.copy(), _get_MODIS_SDS_data))
+                # Each item needs its own managers and metadata, as they are only used when the data is finally read
+                managers = [HDF_SDS(manager._filename, manager._variable, start=list(indices) + [0, 0],
+                                    count=[1] * len(indices) + manager.info()[2][-2:]) for manager in var]
+                result.append(UngriddedData(managers, copy(metadata), coords.copy(), _get_MODIS_SDS_data))
             return result
 
     def get_file_format(self, filenames):
-- 
2.43.0


From d1fb523daeb0bd5aac5e9599a958afc1001dd068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 09/52] fix: undo the removal of points without coordinates if
 it cannot be completed

Otherwise the coordinates were left compressed next to data which was not.
---
 cis/data_io/ungridded_data.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index b82b844..0eeec92 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -513,9 +513,17 @@ class UngriddedData(LazyData, CommonData):
                     new_data = numpy.ma.masked_array(new_data, mask=new_data_mask)
                 else:
                     new_data = numpy.ma.masked_array(self._data.flatten(), mask=combined_mask).compressed()
+            else:
+                new_coords, new_data = self._coords, self._data
+            previous = self._coords, self._data, self._data_flattened
+            if new_data is not self._data:
                 self._coords, self._data, self._data_flattened = new_coords, new_data, None
-            self.update_shape()
-            self.update_range()
+            try:
+                self.update_shape()
+                self.update_range()
+            except BaseException:
+                self._coords, self._data, self._data_flattened = previous
+                raise
 
     def make_new_with_same_coordinates(self, data=None, var_name=None, standard_name=None,
                                        long_name=None, history=None, units=None, flatten=False):
-- 
2.43.0


From a6316e249bb3da69c5df2e8f412abcdca9c67d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 10/52] fix: replace an output file only once it has been
 completely written

---
 cis/data_io/gridded_data.py   |  7 ++--
 cis/data_io/ungridded_data.py | 16 +++++----
 cis/data_io/write_netcdf.py   | 67 ++++++++++++++++++++++++++---------
 3 files changed, 65 insertions(+), 25 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index dd60cdf..2cc0a5a 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -8,6 +8,7 @@ import numpy as np
 from cis.data_io.common_data import CommonData, CommonDataList
 from cis.data_io.hyperpoint import HyperPoint
 from cis.data_io.hyperpoint_view import GriddedHyperPointView
+from cis.data_io.write_netcdf import replacing
 import six
 
 
@@ -292,7 +293,8 @@ class GriddedData(iris.cube.Cube, CommonData):
         # If we have a time coordinate then use that as the unlimited dimension, otherwise don't have any
         if self.coords('time'):
             save_args['unlimited_dimensions'] = ['time']
-        iris.save(self, output_file, **save_args)
+        with replacing(output_file) as temporary:
+            iris.save(self, temporary, **save_args)
 
     def as_data_frame(self, copy=True):
         """
@@ -440,7 +442,8 @@ class GriddedDataList(iris.cube.CubeList, CommonDataList):
         if self.coords('time'):
             save_args['unlimited_dimensions'] = ['time']
 
-        iris.save(self, output_file, **save_args)
+        with replacing(output_file) as temporary:
+            iris.save(self, temporary, **save_args)
 
     def coord(self, *args, **kwargs):
         """
diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 0eeec92..cef5aa9 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -11,7 +11,7 @@ from cis.data_io.hdf_vd import get_data as hdf_vd_get_data
 from cis.data_io.hdf_sd import get_data as hdf_sd_get_data
 from cis.data_io.common_data import CommonData, CommonDataList
 from cis.data_io.hyperpoint_view import UngriddedHyperPointView
-from cis.data_io.write_netcdf import add_data_to_file, write_coordinates
+from cis.data_io.write_netcdf import add_data_to_file, replacing, write_coordinates
 from cis.utils import listify
 import cis.maths
 
@@ -381,8 +381,9 @@ class LazyData(object):
 
     def save_data(self, output_file):
         logging.info('Saving data to %s' % output_file)
-        write_coordinates(self, output_file)
-        add_data_to_file(self, output_file)
+        with replacing(output_file) as temporary:
+            write_coordinates(self, temporary)
+            add_data_to_file(self, temporary)
 
     def update_shape(self, shape=None):
         if shape:
@@ -1079,10 +1080,11 @@ class UngriddedDataList(CommonDataList):
         :return:
         """
         logging.info('Saving data to %s' % output_file)
-        # Should only write coordinates out once
-        write_coordinates(self[0], output_file)
-        for data in self:
-            add_data_to_file(data, output_file)
+        with replacing(output_file) as temporary:
+            # Should only write coordinates out once
+            write_coordinates(self[0], temporary)
+            for data in self:
+                add_data_to_file(data, temporary)
 
     def get_non_masked_points(self):
         """
diff --git a/cis/data_io/write_netcdf.py b/cis/data_io/write_netcdf.py
index f0fb03d..0f6e4ec 100644
--- a/cis/data_io/write_netcdf.py
+++ b/cis/data_io/write_netcdf.py
@@ -1,9 +1,13 @@
 """
 Module for writing data to NetCDF files
 """
+import contextlib
+import logging
+import os
+import shutil
+
 from netCDF4 import Dataset
 from numpy.ma import is_masked
-import logging
 
 types = {'int8': 'i1',
          'int16': "i2",
@@ -19,6 +23,38 @@ types = {'int8': 'i1',
 index_name = 'obs'
 
 
+@contextlib.contextmanager
+def replacing(filename):
+    """
+    Context manager for writing a whole output file: gives the name of a temporary file in the same directory, which takes
+    the place of the output file only once it has been completely written. If the writing fails (or is interrupted) then
+    any previous contents of the output file are kept. This also allows the output file to be one which the data being
+    written is still (lazily) being read from.
+
+    :param str filename: The output file
+    """
+    target = os.path.realpath(filename)
+    directory, name = os.path.split(target)
+    exists = os.path.exists(target)
+    if not os.access(directory, os.W_OK) or (exists and not (os.path.isfile(target) and os.access(target, os.W_OK))):
+        # We can only try and write it in place (e.g. a device)
+        yield filename
+        return
+    # Keep the extension since this can determine the file format
+    temporary = os.path.join(directory, '.{}.{}'.format(os.getpid(), name))
+    try:
+        yield temporary
+        if exists:
+            shutil.copymode(target, temporary)
+        os.replace(temporary, target)
+    except BaseException:
+        try:
+            os.remove(temporary)
+        except OSError:
+            pass
+        raise
+
+
 def __add_metadata(var, data):
     if data.standard_name:
         var.standard_name = data.standard_name
@@ -134,8 +170,9 @@ def write(data_object, filename):
     :param filename:
     :return:
     """
-    write_coordinate_list(data_object.coords(), filename)
-    add_data_to_file(data_object, filename)
+    with replacing(filename) as temporary:
+        write_coordinate_list(data_object.coords(), temporary)
+        add_data_to_file(data_object, temporary)
 
 
 def write_coordinates(coords, filename):
@@ -154,15 +191,14 @@ def write_coordinate_list(coord_list, filename):
     :param coord_list: list of Coord objects
     :param filename: file to which to write
     """
-    netcdf_file = Dataset(filename, 'w', format="NETCDF4")
-    try:
-        length = len(coord_list[0].data.flatten())
-    except AttributeError:
-        length = len(coord_list[0].points.flatten())
-    _ = netcdf_file.createDimension(index_name, length)
-    for coord in coord_list:
-        __create_variable(netcdf_file, coord, prefer_standard_name=True)
-    netcdf_file.close()
+    with Dataset(filename, 'w', format="NETCDF4") as netcdf_file:
+        try:
+            length = len(coord_list[0].data.flatten())
+        except AttributeError:
+            length = len(coord_list[0].points.flatten())
+        _ = netcdf_file.createDimension(index_name, length)
+        for coord in coord_list:
+            __create_variable(netcdf_file, coord, prefer_standard_name=True)
 
 
 def add_data_to_file(data_object, filename):
@@ -173,7 +209,6 @@ def add_data_to_file(data_object, filename):
     :return:
     """
     from cis import __version__
-    netcdf_file = Dataset(filename, 'a', format="NETCDF4")
-    var = __create_variable(netcdf_file, data_object, prefer_standard_name=False)
-    netcdf_file.source = "CIS" + __version__
-    netcdf_file.close()
+    with Dataset(filename, 'a', format="NETCDF4") as netcdf_file:
+        var = __create_variable(netcdf_file, data_object, prefer_standard_name=False)
+        netcdf_file.source = "CIS" + __version__
-- 
2.43.0


From f82a398c4a2703c747b58ec2b7ec4d55542b9d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:17 +0000
Subject: [PATCH 11/52] fix: don't save attributes describing how the values
 were stored in the source file

---
 cis/data_io/write_netcdf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/write_netcdf.py b/cis/data_io/write_netcdf.py
index 0f6e4ec..61489ee 100644
--- a/cis/data_io/write_netcdf.py
+++ b/cis/data_io/write_netcdf.py
@@ -22,6 +22,10 @@ types = {'int8': 'i1',
 
 index_name = 'obs'
 
+# Attributes which describe how the values were stored in (and the range of those in) the file they were read from. They
+#  don't apply to the values we write.
+storage_attributes = ['scale_factor', 'add_offset', 'valid_min', 'valid_max', 'valid_range']
+
 
 @contextlib.contextmanager
 def replacing(filename):
@@ -71,7 +75,7 @@ def __add_metadata(var, data):
     for name, value in data.attributes.items():
         setattr(var, name, value)
     for name, value in data.metadata.misc.items():
-        if name not in var.ncattrs():
+        if name not in var.ncattrs() and name not in storage_attributes:
             try:
                 setattr(var, name, value)
             except ValueError:
-- 
2.43.0


From 693a1dae151640495a2f221b588cd512bbf27d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 12/52] fix: save the collocated results of all datagroups
 rather than only those of the last one

---
 cis/cis_main.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cis/cis_main.py b/cis/cis_main.py
index 126414c..cd687c9 100755
--- a/cis/cis_main.py
+++ b/cis/cis_main.py
@@ -91,12 +91,19 @@ def col_cmd(main_arguments):
 
     kernel = get_kernel(kern_name)(**kern_options) if kern_name else None
 
+    output = None
     for input_group in main_arguments.datagroups:
         # Then collocate each datagroup
         data = DataReader().read_single_datagroup(input_group)
-        output = data.collocated_onto(sample_data, how=col_name, kernel=kernel,
-                                      missing_data_for_missing_sample=missing_data_for_missing_sample, **col_options)
-        output.save_data(main_arguments.output)
+        collocated = data.collocated_onto(sample_data, how=col_name, kernel=kernel,
+                                          missing_data_for_missing_sample=missing_data_for_missing_sample,
+                                          **col_options)
+        if output is None:
+            output = collocated
+        else:
+            output.extend(collocated)
+    # Save the results for all of the datagroups together, as they share the output file
+    output.save_data(main_arguments.output)
 
 
 def subset_cmd(main_arguments):
-- 
2.43.0


From 6d33febcb0759b5eede0ca9a22f03ac6fe49fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 13/52] fix: refuse to save different variables under the same
 name instead of silently dropping one

---
 cis/data_io/write_netcdf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/write_netcdf.py b/cis/data_io/write_netcdf.py
index 61489ee..2b1cd2a 100644
--- a/cis/data_io/write_netcdf.py
+++ b/cis/data_io/write_netcdf.py
@@ -7,7 +7,7 @@ import os
 import shutil
 
 from netCDF4 import Dataset
-from numpy.ma import is_masked
+from numpy.ma import allequal, fix_invalid, is_masked
 
 types = {'int8': 'i1',
          'int16': "i2",
@@ -164,7 +164,11 @@ def __create_variable(nc_file, data, prefer_standard_name=False):
             raise
         return var
     else:
-        return nc_file.variables[name]
+        var = nc_file.variables[name]
+        written, values = fix_invalid(var[...]), fix_invalid(data.data.flatten())
+        if written.shape != values.shape or not allequal(written, values):
+            raise ValueError("Unable to write more than one variable with the name '{}' to the same file".format(name))
+        return var
 
 
 def write(data_object, filename):
-- 
2.43.0


From bb4fdbd16e377140cffa913e2dc96b671dda7547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 14/52] fix: only overwrite without asking if
 CIS_FORCE_OVERWRITE is set to 'TRUE'

---
 cis/parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 94621a1..25dbb1f 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -813,10 +813,10 @@ def _file_already_exists_and_no_overwrite(arguments):
     # If the file already exists, and we haven't set the overwrite flag or env var, then prompt
     if os.path.isfile(arguments.output):
         overwrite_env = os.environ.get("CIS_FORCE_OVERWRITE", "").lower()
-        if arguments.force_overwrite:
+        if arguments.force_overwrite or overwrite_env == 'true':
             return False
-        elif overwrite_env:
-            return overwrite_env == 'false'
+        elif overwrite_env == 'false':
+            return True
         else:
             overwrite = None
             while overwrite not in ['y', 'n', '']:
-- 
2.43.0


From 0656513e7ad3f3f6d1593e0293daab902b25d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 15/52] fix: always give a message when a command fails, also
 for exceptions which come without one

---
 cis/cis_main.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cis/cis_main.py b/cis/cis_main.py
index cd687c9..0ecb161 100755
--- a/cis/cis_main.py
+++ b/cis/cis_main.py
@@ -18,11 +18,13 @@ def __error_occurred(e):
 
     :param e: An error object or any string
     """
-    sys.stderr.write(str(e) + "\n")
-    logging.debug(str(e) + "\n")
+    # Not all exceptions come with a message
+    message = str(e).strip() or type(e).__name__
+    sys.stderr.write(message + "\n")
+    logging.debug(message + "\n")
     logging.debug(traceback.format_exc())
-    logging.error(str(e) + " - check cis.log for details\n")
-    exit(1)
+    logging.error(message + " - check cis.log for details\n")
+    sys.exit(1)
 
 
 def plot_cmd(main_arguments):
-- 
2.43.0


From 1eaee4c6e1a5820d602026ea45f9063eddd4a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 16/52] fix: keep working when the log file cannot be opened or
 written to

---
 cis/cis_main.py  |  8 ++++++--
 cis/logging.conf |  2 +-
 cis/utils.py     | 14 ++++++++++++++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/cis/cis_main.py b/cis/cis_main.py
index 0ecb161..370ff2a 100755
--- a/cis/cis_main.py
+++ b/cis/cis_main.py
@@ -280,9 +280,13 @@ def main():
     try:
         logging.config.fileConfig(os.path.join(os.path.dirname(__file__), "logging.conf"))
     except IOError as e:
-        # If we don't have permission to write to the log file, all we can do is inform the user
-        # All future calls to the logging module will be ignored (?)
+        # If we don't have permission to write to the log file, all we can do is inform the user and log to the screen only
         print("WARNING: Unable to write to the log: %s" % e)
+        screen = logging.StreamHandler(sys.stdout)
+        screen.setLevel(logging.WARNING)
+        screen.setFormatter(logging.Formatter("%(asctime)s - %(levelname)s - %(message)s"))
+        logging.getLogger().handlers = [screen]
+        logging.getLogger().setLevel(logging.NOTSET)
     logging.captureWarnings(True)  # to catch warning from 3rd party libraries
 
     try:
diff --git a/cis/logging.conf b/cis/logging.conf
index a86329d..79eab15 100644
--- a/cis/logging.conf
+++ b/cis/logging.conf
@@ -19,7 +19,7 @@ format=%(asctime)s - %(levelname)s - %(module)s : %(lineno)d - %(message)s
 keys=file,screen
 
 [handler_file]
-class=handlers.WatchedFileHandler
+class=cis.utils.LogFileHandler
 interval=midnight
 backupCount=5
 formatter=complex
diff --git a/cis/utils.py b/cis/utils.py
index aca2489..30870a2 100644
--- a/cis/utils.py
+++ b/cis/utils.py
@@ -1,6 +1,7 @@
 import collections.abc
 import re
 import logging
+import logging.handlers
 import warnings
 import numpy as np
 from cis.exceptions import InvalidCommandLineOptionError
@@ -11,6 +12,19 @@ import contextlib
 BYTES_IN_A_MB = 1048576.0
 
 
+class LogFileHandler(logging.handlers.WatchedFileHandler):
+    """
+    A log file handler which reports, but doesn't raise, that the log file can't be opened (any more) - being unable to
+    write to the log shouldn't stop a command from working.
+    """
+
+    def emit(self, record):
+        try:
+            super(LogFileHandler, self).emit(record)
+        except EnvironmentError:
+            self.handleError(record)
+
+
 def add_element_to_list_in_dict(my_dict, key, value):
     try:
         my_dict[key].append(value)
-- 
2.43.0


From a1239dbb19cd055fcecdfecbbb29ee736500ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 17/52] fix: report a gridded variable missing from some of the
 files rather than silently skipping those files

---
 cis/data_io/gridded_data.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 2cc0a5a..16a8f0d 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -1,4 +1,5 @@
 from time import gmtime, strftime
+import os
 import logging
 
 import iris.cube
@@ -9,19 +10,37 @@ from cis.data_io.common_data import CommonData, CommonDataList
 from cis.data_io.hyperpoint import HyperPoint
 from cis.data_io.hyperpoint_view import GriddedHyperPointView
 from cis.data_io.write_netcdf import replacing
+from cis.utils import listify
 import six
 
 
-def load_cube(*args, **kwargs):
+def load_cube(filenames, constraint=None, callback=None):
     """
     Load a single GriddedData object through the iris load interface, but also attempt concatenation if merging fails
 
+    :param filenames: One or more filenames to load from
+    :param constraint: Optional iris constraint the cube has to fulfil
+    :param callback: Optional iris load callback
     :return GriddedData: A single GriddedData object
-    :raises ValueError: If 0 or more than one cube is found
+    :raises ValueError: If 0 or more than one cube is found, or if there is none in one of the files
     """
     from iris.exceptions import MergeError, ConcatenateError
 
-    cubes = iris.load(*args, **kwargs)
+    # Iris silently skips the files which don't contain the cube, so note which ones do
+    wanted = iris.Constraint() if constraint is None else constraint
+    found_in = set()
+
+    def note_filename(cube, field, filename):
+        result = callback(cube, field, filename) if callback is not None else None
+        if wanted.extract(cube if result is None else result) is not None:
+            found_in.add(os.path.realpath(filename))
+        return result
+
+    cubes = iris.load(filenames, constraint, callback=note_filename)
+
+    missing = [f for f in listify(filenames) if os.path.realpath(f) not in found_in]
+    if found_in and missing:
+        raise ValueError("Variable not found in {}: {}".format(", ".join(missing), wanted))
 
     try:
         iris_cube = cubes.merge_cube()
@@ -31,7 +50,7 @@ def load_cube(*args, **kwargs):
             iris_cube = cubes.concatenate_cube()
         except ConcatenateError as e:
             logging.error("Unable to concatenate cubes on load: \n {}".format(e))
-            raise ValueError("Unable to create a single cube from arguments given: {}".format(args))
+            raise ValueError("Unable to create a single cube from arguments given: {}".format((filenames, constraint)))
     except ValueError as e:
         raise ValueError("No cubes found")
     return make_from_cube(iris_cube)
-- 
2.43.0


From 6d61041e1664a52d08f1d0a7244d10cd7abd694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 18/52] fix: point views of gridded data with dimensions of
 length one, and ranges in listings after conversions

---
 cis/data_io/hyperpoint_view.py | 2 +-
 cis/data_io/ungridded_data.py  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index 8238e06..29d7d2b 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -258,7 +258,7 @@ class GriddedHyperPointView(HyperPointView):
         """Iterates over all or non-masked points according to the value of non_masked_iteration
         :return: next HyperPoint
         """
-        shape = [c.size for c in self.coords if (c is not None and c.size > 1)]
+        shape = self.data.shape
         for idx in cis.utils.index_iterator(shape):
             if self.non_masked_iteration and self.data is not None and self.data[idx] is np.ma.masked:
                 continue
diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index cef5aa9..5b50b9c 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -410,8 +410,8 @@ class LazyData(object):
                              cis_standard_time_unit.num2date(self.data.max()))
                 else:
                     range = (self.data.min(), self.data.max())
-            except ValueError as e:
-                # If we can't set a range for some reason then just leave it blank
+            except (ValueError, AttributeError) as e:
+                # If we can't set a range for some reason (e.g. masked dates can't be compared) then just leave it blank
                 range = ()
 
         self.metadata.range = range
@@ -743,6 +743,8 @@ class UngriddedData(LazyData, CommonData):
         if shorten:
             return summary
 
+        # The range might be that of the data before it was changed (e.g. converted to other units)
+        self.update_range()
         summary += '     Shape = {}\n'.format(self.data.shape) + '\n'
         summary += '     Total number of points = {}\n'.format(self.size)
         summary += '     Number of non-masked points = {}\n'.format(self.count())
-- 
2.43.0


From eb7d781288e2c38eda945b0d7e46a4ab9fb7a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:44 +0000
Subject: [PATCH 19/52] fix: subset points on any side of the date line, lists
 of data, and shapes of lists or of data with missing values

---
 cis/subsetting/subset.py | 75 ++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 37 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 170c40b..ef231f5 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -94,6 +94,8 @@ class SubsetConstraint(object):
     def __str__(self):
         limit_strs = []
         for name, limit in self._limits.items():
+            if name == 'shape':
+                continue
             limit_strs.append("{}: [{}, {}]".format(name, str(limit.start), str(limit.stop)))
         return ', '.join(limit_strs)
 
@@ -119,11 +121,11 @@ class GriddedSubsetConstraint(SubsetConstraint):
         :return: subsetted data or None if all data excluded.
         @rtype: cis.data_io.gridded_data.GriddedData
         """
-        _shape = self._limits.pop('shape', None)
+        _shape = self._limits.get('shape')
         extract_constraint, intersection_constraint = self._make_extract_and_intersection_constraints(data)
         if extract_constraint is not None:
             data = data.extract(extract_constraint)
-            if data is None:
+            if data is None or (isinstance(data, list) and len(data) == 0):
                 return None  # Don't do the intersection
         if intersection_constraint:
             try:
@@ -132,14 +134,13 @@ class GriddedSubsetConstraint(SubsetConstraint):
                 return None
 
         if _shape is not None:
-            if data.ndim > 2:
-                raise NotImplementedError("Unable to perform shape subset for multidimensional gridded datasets")
-            mask = np.ones(data.shape, dtype=bool)
-            mask[np.unravel_index(_get_gridded_subset_region_indices(data, _shape), data.shape)] = False
-            if isinstance(data.data, np.ma.MaskedArray):
-                data.data.mask &= mask
-            else:
-                data.data = np.ma.masked_array(data.data, mask)
+            for cube in data if isinstance(data, list) else [data]:
+                if cube.ndim > 2:
+                    raise NotImplementedError("Unable to perform shape subset for multidimensional gridded datasets")
+                mask = np.ones(cube.shape, dtype=bool)
+                mask[np.unravel_index(_get_gridded_subset_region_indices(cube, _shape), cube.shape)] = False
+                # This creates new data, as the values and the mask can be shared with the original data
+                cube.data = np.ma.masked_where(mask, cube.data)
         return gridded_data.make_from_cube(data)
 
     def _make_extract_and_intersection_constraints(self, data):
@@ -165,6 +166,8 @@ class GriddedSubsetConstraint(SubsetConstraint):
         intersection_constraint = {}
         extract_constraint = iris.Constraint()
         for coord, limits in self._limits.items():
+            if coord == 'shape':
+                continue
             if data.coord(coord).units.modulus is not None:
                 # These coordinates can be safely used with iris.cube.Cube.intersection()
                 intersection_constraint[coord] = (limits.start, limits.stop)
@@ -189,27 +192,38 @@ class UngriddedSubsetConstraint(SubsetConstraint):
         :param data: data to be subsetted
         :return: subsetted data
         """
-        import numpy as np
-        from datetime import datetime
         from cis.data_io.ungridded_data import UngriddedDataList
 
+        # The mask and the indices only apply to the data being subsetted now
+        self._combined_mask = None
+        self._shape_indices = None
+
         if isinstance(data, list):
-            # Calculating masks and indices will only take place on the first iteration,
-            # so we can just call this method recursively if we've got a list of data.
+            # Calculating masks and indices will only take place on the first iteration
             output = UngriddedDataList()
             for var in data:
-                output.append(self.constrain(var))
-            return output
+                subset_var = self._constrain_single(var)
+                if subset_var is not None:
+                    output.append(subset_var)
+            return output if len(output) > 0 else None
+
+        return self._constrain_single(data)
+
+    def _constrain_single(self, data):
+        import numpy as np
+        from datetime import datetime
 
         _data = self._create_data_for_subset(data)
 
-        _shape = self._limits.pop('shape', None)
+        _shape = self._limits.get('shape')
 
         if self._combined_mask is None:
             # Create the combined mask across all limits
             shape = _data.coords()[0].data.shape  # This assumes they are all the same shape
             combined_mask = np.ones(shape, dtype=bool)
             for coord, limit in self._limits.items():
+                if coord == 'shape':
+                    continue
                 # Convert the points to datetimes if the limit is a datetime
                 if isinstance(limit.start, datetime):
                     points = _data.coord(coord).units.num2date(_data.coord(coord).data)
@@ -250,26 +264,13 @@ class UngriddedSubsetConstraint(SubsetConstraint):
                 # E.g. shape...
                 continue
             if coord.standard_name == 'longitude':
-                coord_min = coord.points.min()
-                coord_max = coord.points.max()
-                data_below_zero = coord_min < 0
-                data_above_180 = coord_max > 180
-                limits_below_zero = limit.start < 0 or limit.stop < 0
-                limits_above_180 = limit.start > 180 or limit.stop > 180
-
-                if data_below_zero and not data_above_180:
-                    # i.e. data is in the range -180 -> 180
-                    # Only convert the data if the limits are above 180:
-                    if limits_above_180 and not limits_below_zero:
-                        # Convert data from -180 -> 180 to 0 -> 360
-                        range_start = 0
-                        coord.set_longitude_range(range_start)
-                elif data_above_180 and not data_below_zero:
-                    # i.e. data is in the range 0 -> 360
-                    if limits_below_zero and not limits_above_180:
-                        # Convert data from 0 -> 360 to -180 -> 180
-                        range_start = -180
-                        coord.set_longitude_range(range_start)
+                points = coord.points
+                inside = (points >= limit.start) & (points <= limit.stop)
+                wrapped_inside = (points - limit.start) % 360 + limit.start <= limit.stop
+                # Longitudes are circular (-10 is 350), so if the limits include points which are only inside them in
+                #  another range of longitudes then convert the data to the range which starts at the lower limit.
+                if np.any(wrapped_inside & ~inside):
+                    coord.set_longitude_range(limit.start)
         return data
 
 
-- 
2.43.0


From 5990a6b97687a5e7c6170aee3a185ce8e04a9e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 20/52] fix: collapse coordinates which span only some of the
 dimensions, without adding bounds to the input

---
 cis/aggregation/gridded_collapsor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cis/aggregation/gridded_collapsor.py b/cis/aggregation/gridded_collapsor.py
index c1c9ebc..37107d4 100644
--- a/cis/aggregation/gridded_collapsor.py
+++ b/cis/aggregation/gridded_collapsor.py
@@ -107,7 +107,9 @@ class GriddedCollapsor(object):
         new_data = iris.cube.Cube.collapsed(data_for_collapse, self.coords, kernel, **ag_args)
 
         for coord, old_dims in coords_for_partial_collapse:
-            collapsed_coord = GriddedCollapsor._partially_collapse_multidimensional_coord(coord, dims_to_collapse)
+            # The dimensions of the coordinate itself are not necessarily those which it spans in the data
+            coord_dims_to_collapse = [i for i, d in enumerate(old_dims) if d in dims_to_collapse]
+            collapsed_coord = GriddedCollapsor._partially_collapse_multidimensional_coord(coord, coord_dims_to_collapse)
             new_dims = GriddedCollapsor._calc_new_dims(old_dims, dims_to_collapse)
 
             new_data.add_aux_coord(collapsed_coord, new_dims)
@@ -118,9 +120,14 @@ class GriddedCollapsor(object):
         return new_data
 
     def __call__(self, kernel):
+        from copy import deepcopy
         from cis.data_io.gridded_data import GriddedDataList
         from cis.aggregation.collapse_kernels import MultiKernel
 
+        # The bounds are only needed for the collapse, don't add them to the input data
+        if any(not coord.has_bounds() and len(coord.points) > 1 for coord in self.data.coords(dim_coords=True)):
+            self.data = deepcopy(self.data)
+
         # Make sure all coordinate have bounds - important for weighting and aggregating
         # Only try and guess bounds on Dim Coords
         for coord in self.data.coords(dim_coords=True):
-- 
2.43.0


From 26cc4861b7825c558f41a51c520b01b2bf04f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 21/52] fix: keep missing values and orientation of decreasing
 and circular coordinates when collocating gridded data

---
 cis/collocation/data_index.py            |  9 ++--
 cis/collocation/gridded_interpolation.py | 59 +++++++++++++++---------
 2 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/cis/collocation/data_index.py b/cis/collocation/data_index.py
index a80c080..d643693 100644
--- a/cis/collocation/data_index.py
+++ b/cis/collocation/data_index.py
@@ -53,12 +53,11 @@ class GridCellBinIndexInSlices(object):
                 if coord.points[1] < coord.points[0]:
                     coord_descreasing[shi] = True
             coord_lengths[shi] = len(coord.points)
+            # The bounds of each cell can be in either order
+            lower_bounds[shi] = coord.bounds.min(axis=1)
+            max_bounds[shi] = coord.bounds.max()
             if coord_descreasing[shi]:
-                lower_bounds[shi] = coord.bounds[::-1, 1]
-                max_bounds[shi] = coord.bounds[0, 1]
-            else:
-                lower_bounds[shi] = coord.bounds[::, 0]
-                max_bounds[shi] = coord.bounds[-1, 1]
+                lower_bounds[shi] = lower_bounds[shi][::-1]
 
             hp_coord = hyper_points.coords[hpi]
             if isinstance(hp_coord[0], datetime.datetime):
diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index dc234c2..551782e 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -39,9 +39,11 @@ def extend_circular_data(data, coord_dim):
     coord_slice_in_cube = [slice(None)] * data.ndim
     coord_slice_in_cube[coord_dim] = slice(0, 1)
 
-    data = np.append(data,
-                     data[tuple(coord_slice_in_cube)],
-                     axis=coord_dim)
+    # np.append would lose the mask of any masked data
+    append = np.ma.append if np.ma.isMaskedArray(data) else np.append
+    data = append(data,
+                  data[tuple(coord_slice_in_cube)],
+                  axis=coord_dim)
     return data
 
 
@@ -88,7 +90,7 @@ class GriddedUngriddedInterpolator(object):
                 decreasing = (coord_points.size > 1 and
                               coord_points[1] < coord_points[0])
                 if decreasing:
-                    self._decreasing_coord_dims.append(decreasing)
+                    self._decreasing_coord_dims.append(coord_dim)
                     coord_points = coord_points[::-1]
 
                 if getattr(coord, 'circular', False):
@@ -99,19 +101,21 @@ class GriddedUngriddedInterpolator(object):
 
         sample_points = [sample.coord(c).data_flattened for c in coords]
 
+        # Sample points which fall between the last and the first point of a circular coordinate have to be wrapped
+        for i, c in enumerate(coords):
+            if getattr(data.coord(c), 'circular', False):
+                first_point, last_point = grid_points[i][0], grid_points[i][-1]
+                points = sample_points[i]
+                sample_points[i] = np.where((points < first_point) | (points > last_point),
+                                            (points - first_point) % (last_point - first_point) + first_point, points)
+
         if len(data.coords('altitude', dim_coords=False)) > 0 and sample.coords(standard_name='altitude'):
             hybrid_dims = data.coord_dims(data.coord('altitude'))
-            hybrid_coord = data.coord('altitude').points
-            for coord_dim in self._circular_coord_dims:
-                # Lookup the dimension on the hybrid data array
-                hybrid_coord_dim = hybrid_dims.index(coord_dim)
-                hybrid_coord = extend_circular_data(hybrid_coord, hybrid_coord_dim)
+            hybrid_coord = self._match_grid_points(data.coord('altitude').points, hybrid_dims)
             sample_points.append(sample.coord(standard_name="altitude").data_flattened)
         elif len(data.coords('air_pressure', dim_coords=False)) > 0 and sample.coords(standard_name='air_pressure'):
-            hybrid_coord = data.coord('air_pressure').points
-            for coord_dim in self._circular_coord_dims:
-                hybrid_coord = extend_circular_data(hybrid_coord, coord_dim)
             hybrid_dims = data.coord_dims(data.coord('air_pressure'))
+            hybrid_coord = self._match_grid_points(data.coord('air_pressure').points, hybrid_dims)
             sample_points.append(sample.coord(standard_name="air_pressure").data_flattened)
         else:
             hybrid_coord = None
@@ -123,7 +127,7 @@ class GriddedUngriddedInterpolator(object):
 
         # Check if we want to sample missing points
         if missing_data_for_missing_sample and hasattr(sample.data, 'mask'):
-            self.missing_mask = sample.data.mask.flatten()
+            self.missing_mask = np.ma.getmaskarray(sample.data).flatten()
             sample_points = [p[~self.missing_mask] for p in sample_points]
         else:
             self.missing_mask = None
@@ -142,12 +146,24 @@ class GriddedUngriddedInterpolator(object):
         self._data_transpose.pop(vertical_dim)
         self._data_transpose.append(vertical_dim)
 
-    def _account_for_inverted(self, data):
-        dim_slices = [slice(None)] * data.ndim
+    def _match_grid_points(self, array, dims):
+        """
+        Invert and extend an array in the same way as the points of the decreasing and circular coordinates
+
+        :param ndarray array: The array to invert and extend
+        :param iterable dims: The dimensions of the data which the array spans
+        :return ndarray: The array matching the grid points
+        """
+        dims = list(dims)
+        dim_slices = [slice(None)] * array.ndim
         for dim in self._decreasing_coord_dims:
-                dim_slices[dim] = slice(-1, None, -1)
-        data = data[tuple(dim_slices)]
-        return data
+            if dim in dims:
+                dim_slices[dims.index(dim)] = slice(None, None, -1)
+        array = array[tuple(dim_slices)]
+        for dim in self._circular_coord_dims:
+            if dim in dims:
+                array = extend_circular_data(array, dims.index(dim))
+        return array
 
     def __call__(self, data, fill_value=np.nan, extrapolate=False):
         """
@@ -166,11 +182,8 @@ class GriddedUngriddedInterpolator(object):
 
         # Apply a transpose if we need to so that the indices line-up correctly
         data_array = data.data.transpose(self._data_transpose)
-        # Account for any circular coords present
-        for dim in self._circular_coord_dims:
-            data_array = extend_circular_data(data_array, dim)
-
-        data_array = self._account_for_inverted(data_array)
+        # Account for any decreasing or circular coords present
+        data_array = self._match_grid_points(data_array, range(data_array.ndim))
 
         result = self._interp(data_array, fill_value=fill_value)
 
-- 
2.43.0


From 95aefb416bfd43cd82fa18dd48aa58b21686434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 22/52] fix: find the vertical position in columns which
 decrease with level when collocating gridded data

---
 cis/collocation/gridded_interpolation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index 551782e..f054ae3 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -392,12 +392,16 @@ class _RegularGridInterpolator(object):
 
     @staticmethod
     def _find_vertical_index(point, coord):
-        i = np.searchsorted(coord, point) - 1
+        # Vertical columns can be in either direction, e.g. pressure usually decreases with the level number
+        decreasing = coord[-1] < coord[0]
+        i = np.searchsorted(coord[::-1] if decreasing else coord, point) - 1
         if i < 0:
             i = 0
         if i > coord.size - 2:
             i = coord.size - 2
+        if decreasing:
+            i = coord.size - 2 - i
         norm_distances = ((point - coord[i]) / (coord[i + 1] - coord[i]))
 
-        out_of_bounds = point < coord[0] or point > coord[-1]
+        out_of_bounds = point < min(coord[0], coord[-1]) or point > max(coord[0], coord[-1])
         return i, norm_distances, out_of_bounds
-- 
2.43.0


From 2c3a9ca752a21e41adb00d4370128c8ff2fafa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 23/52] fix: collocating data without any valid points gives
 missing values rather than failing

---
 cis/collocation/col_implementations.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 3267b57..36bdb3e 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -57,9 +57,13 @@ class GeneralUngriddedCollocator(Collocator):
 
         log_memory_profile("GeneralUngriddedCollocator after data retrieval")
 
+        # The index can't be created (and there is nothing to collocate) if there are no valid points
+        nothing_to_collocate = len(sample_points) == 0 or len(data_points) == 0
+
         # Create index if constraint and/or kernel require one.
         coord_map = None
-        data_index.create_indexes(constraint, points, data_points, coord_map)
+        if not nothing_to_collocate:
+            data_index.create_indexes(constraint, points, data_points, coord_map)
         log_memory_profile("GeneralUngriddedCollocator after indexing")
 
         logging.info("--> Collocating...")
@@ -81,7 +85,9 @@ class GeneralUngriddedCollocator(Collocator):
         logging.info("    {} sample points".format(sample_points_count))
         # Apply constraint and/or kernel to each sample point.
 
-        if isinstance(kernel, nn_horizontal_only):
+        if nothing_to_collocate:
+            logging.warning("There are no valid points to collocate, all of the output will be missing")
+        elif isinstance(kernel, nn_horizontal_only):
             # Only find the nearest point using the kd-tree, without constraint in other dimensions
             nearest_points = data_points.iloc[constraint.haversine_distance_kd_tree_index.find_nearest_point(sample_points)]
             values[0, :] = nearest_points.vals.values
-- 
2.43.0


From 13d2cbacce4059cb9a277d25fa7e6c3bb2b2b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 24/52] fix: set the longitude range of gridded data
 completely, leaving coordinates of other data alone

---
 cis/data_io/gridded_data.py | 70 +++++++++++++++----------------------
 1 file changed, 29 insertions(+), 41 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 16a8f0d..9ad9bc9 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -220,41 +220,30 @@ class GriddedData(iris.cube.Cube, CommonData):
         if len(lon_coord) == 0:
             return
         lon_coord = lon_coord[0]
-        lon_idx = self.dim_coords.index(lon_coord)
-        # Check if there are bounds which we will need to wrap as well
-        roll_bounds = (lon_coord.bounds is not None) and (lon_coord.bounds.size != 0)
-        idx1 = np.searchsorted(lon_coord.points, range_start)
-        idx2 = np.searchsorted(lon_coord.points, range_start + 360.)
+        # Calculate the whole turns which bring each of the longitudes into the range
+        offsets = np.floor((lon_coord.points - range_start) / 360.) * -360.
+        if not np.any(offsets):
+            return
+        new_lon_points = lon_coord.points + offsets
+        # Shift all of the bounds (upper and lower) for those points which we have to shift. We can't do the check
+        # independently because there may be cases where an upper or lower bound falls outside of the 360 range, we
+        # leave those as they are to preserve monotonicity. See e.g. test_set_longitude_bounds_wrap_at_360
+        new_lon_bounds = lon_coord.bounds + offsets[..., np.newaxis] if lon_coord.has_bounds() else None
+
+        # Rotate the longitudes of a dimension coordinate, so that they stay monotonic
         shift = 0
-        new_lon_points = None
-        new_lon_bounds = None
-        if 0 < idx1 < len(lon_coord.points):
-            shift = -idx1
-            lon_min = lon_coord.points[idx1]
-            new_lon_points = np.roll(lon_coord.points, shift, 0)
-            # Calculate which indices need 360 adding to them...
-            indices_to_shift_value_of = new_lon_points < lon_min
-            # ... then, add 360 to all those longitude values
-            new_lon_points[indices_to_shift_value_of] += 360.0
-            if roll_bounds:
-                # If the coordinate has bounds then roll those as well
-                new_lon_bounds = np.roll(lon_coord.bounds, shift, 0)
-                # And shift all of the bounds (upper and lower) for those points which we had to shift. We can't do the
-                # check independently because there may be cases where an upper or lower bound falls outside of the
-                # 360 range, we leave those as they are to preserve monotonicity. See e.g.
-                # test_set_longitude_bounds_wrap_at_360
-                new_lon_bounds[indices_to_shift_value_of] += 360.0
-        elif 0 < idx2 < len(lon_coord.points):
-            shift = len(lon_coord.points) - idx2
-            lon_max = lon_coord.points[idx2]
-            new_lon_points = np.roll(lon_coord.points, shift, 0)
-            indices_to_shift_value_of = new_lon_points >= lon_max
-            new_lon_points[indices_to_shift_value_of] -= 360.0
-            if roll_bounds:
-                new_lon_bounds = np.roll(lon_coord.bounds, shift, 0)
-                # See comment above re preserving monotinicity.
-                new_lon_bounds[indices_to_shift_value_of] -= 360.0
+        if lon_coord in self.dim_coords and lon_coord.points.size > 1:
+            decreasing = lon_coord.points[1] < lon_coord.points[0]
+            shift = -int(np.argmax(new_lon_points) if decreasing else np.argmin(new_lon_points))
+            new_lon_points = np.roll(new_lon_points, shift, 0)
+            if new_lon_bounds is not None:
+                new_lon_bounds = np.roll(new_lon_bounds, shift, 0)
+
+        # Prepare everything before making any changes. The coordinates are replaced rather than changed as they might
+        # be shared with other data.
+        new_coords = [lon_coord.copy(points=new_lon_points, bounds=new_lon_bounds)]
         if shift != 0:
+            lon_idx, = self.coord_dims(lon_coord)
             # Ensure we also roll any auxilliary coordinates
             for aux_coord in self.aux_coords:
                 # Find all of the data dimensions which the auxiliary coordinate spans...
@@ -263,15 +252,14 @@ class GriddedData(iris.cube.Cube, CommonData):
                 if lon_idx in dims:
                     # Now roll the axis of the auxiliary coordinate which is associated with the longitude data
                     # dimension: dims.index(lon_idx)
-                    new_points = np.roll(aux_coord.points, shift, dims.index(lon_idx))
-                    aux_coord.points = new_points
+                    axis = dims.index(lon_idx)
+                    new_bounds = np.roll(aux_coord.bounds, shift, axis) if aux_coord.has_bounds() else None
+                    new_coords.append(aux_coord.copy(points=np.roll(aux_coord.points, shift, axis), bounds=new_bounds))
             # Now roll the data itself
-            new_data = np.roll(self.data, shift, lon_idx)
-            self.data = new_data
-            # Put the new coordinates back in their relevant places
-            self.dim_coords[lon_idx].points = new_lon_points
-            if roll_bounds:
-                self.dim_coords[lon_idx].bounds = new_lon_bounds
+            self.data = np.roll(self.data, shift, lon_idx)
+        # Put the new coordinates back in their relevant places
+        for new_coord in new_coords:
+            self.replace_coord(new_coord)
 
     def add_attributes(self, attributes):
         """
-- 
2.43.0


From 652f0db792a855b5125a51132ff473bf1f0dc591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 25/52] fix: don't change the longitudes or the points of other
 data which shares the coordinates

---
 cis/data_io/ungridded_data.py | 40 ++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 5b50b9c..576caf3 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -779,8 +779,7 @@ class UngriddedData(LazyData, CommonData):
         at the specified value.
         :param range_start: starting value of required longitude range
         """
-        from cis.utils import fix_longitude_range
-        self.coord(standard_name='longitude').data = fix_longitude_range(self.lon.points, range_start)
+        _set_longitude_range(self, range_start)
 
     def subset(self, **kwargs):
         """
@@ -866,6 +865,24 @@ class UngriddedData(LazyData, CommonData):
             return 'line'
 
 
+def _set_longitude_range(data, range_start):
+    """
+    Confine the longitude coordinate to 360 degrees from the range_start value. This replaces the coordinate, rather than
+    changing it, as it might be shared with other data.
+    :param UngriddedData or UngriddedCoordinates data: Data to change the longitude coordinate of
+    :param float range_start: Start of the longitude range
+    """
+    from cis.data_io.Coord import CoordList
+    lon = data.coord(standard_name='longitude')
+    new_lon = lon.copy()
+    new_lon.attributes = lon.attributes
+    new_lon.set_longitude_range(range_start)
+    new_coords = CoordList()
+    for coord in data._coords:
+        list.append(new_coords, new_lon if coord is lon else coord)
+    data._coords = new_coords
+
+
 class UngriddedCoordinates(CommonData):
     """
     Wrapper (adaptor) class for the different types of possible ungridded data.
@@ -895,6 +912,8 @@ class UngriddedCoordinates(CommonData):
 
         :return:
         """
+        from copy import copy
+        from cis.data_io.Coord import Coord, CoordList
         # Remove any points with missing coordinate values:
         combined_mask = numpy.zeros(self._coords[0].data_flattened.shape, dtype=bool)
         for coord in self._coords:
@@ -905,10 +924,16 @@ class UngriddedCoordinates(CommonData):
             n_points = numpy.count_nonzero(combined_mask)
             logging.warning("Identified {n_points} point(s) which were missing values for some or all coordinates - "
                             "these points have been removed from the data.".format(n_points=n_points))
+            # Work on new coordinates, as the existing ones might be shared with other data
+            new_coords = CoordList()
             for coord in self._coords:
-                coord.data = numpy.ma.masked_array(coord.data_flattened, mask=combined_mask).compressed()
-                coord.update_shape()
-                coord.update_range()
+                new_coord = Coord(numpy.ma.masked_array(coord.data_flattened, mask=combined_mask).compressed(),
+                                  copy(coord.metadata), coord.axis)
+                new_coord.attributes = coord.attributes
+                new_coord.update_shape()
+                new_coord.update_range()
+                list.append(new_coords, new_coord)
+            self._coords = new_coords
 
     @property
     def coords_flattened(self):
@@ -921,7 +946,7 @@ class UngriddedCoordinates(CommonData):
 
     @property
     def size(self):
-        if len(self._coords) > 1:
+        if len(self._coords) > 0:
             return self._coords[0].data.size
         else:
             return 0
@@ -1021,8 +1046,7 @@ class UngriddedCoordinates(CommonData):
         at the specified value.
         :param range_start: starting value of required longitude range
         """
-        from cis.utils import fix_longitude_range
-        self.coord(standard_name='longitude').data = fix_longitude_range(self.lon.points, range_start)
+        _set_longitude_range(self, range_start)
 
     def subset(self, **kwargs):
         raise NotImplementedError("Subset is not available for UngriddedCoordinates objects")
-- 
2.43.0


From ba2964259817a15967fd01de504daaa6e7154415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 26/52] fix: use all data in cells which reach beyond the usual
 longitude ranges

---
 cis/collocation/col_implementations.py | 6 +++++-
 cis/utils.py                           | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 36bdb3e..d11f3c9 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -828,7 +828,11 @@ class GeneralGriddedCollocator(Collocator):
             shape.append(coord.shape[0])
             output_coords.append(coord)
 
-        _fix_longitude_range(coords, data_points)
+        # The cells might reach beyond the usual ranges, so start from the first of them
+        for coord in output_coords:
+            if coord.standard_name == 'longitude':
+                low = coord.bounds.min()
+                data_points.set_longitude_range(low if np.isfinite(low) else _find_longitude_range([coord]))
 
         log_memory_profile("GeneralGriddedCollocator Created output coord map")
 
diff --git a/cis/utils.py b/cis/utils.py
index 30870a2..6086d42 100644
--- a/cis/utils.py
+++ b/cis/utils.py
@@ -242,7 +242,10 @@ def fix_longitude_range(lons, range_start):
     :return: array of fixed longitudes
     """
     from iris.analysis.cartography import wrap_lons
-    return wrap_lons(lons, range_start, 360)
+    # Leave the values which are in the range already exactly as they are
+    inside = (lons >= range_start) & (lons < range_start + 360)
+    where = np.ma.where if np.ma.isMA(lons) else np.where
+    return where(inside, lons, wrap_lons(lons, range_start, 360))
 
 
 def find_longitude_wrap_start(packed_data_item):
-- 
2.43.0


From 56b5330207d0477082cc3226a4917c6ce4471178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 27/52] fix: include gridded points which lie exactly on the
 upper limit of a subset

---
 cis/subsetting/subset.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index ef231f5..e09683a 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -5,6 +5,7 @@ import logging
 import numpy as np
 import iris
 import iris.coords
+from iris.analysis.cartography import wrap_lons
 
 import cis.data_io.gridded_data as gridded_data
 
@@ -170,12 +171,26 @@ class GriddedSubsetConstraint(SubsetConstraint):
                 continue
             if data.coord(coord).units.modulus is not None:
                 # These coordinates can be safely used with iris.cube.Cube.intersection()
-                intersection_constraint[coord] = (limits.start, limits.stop)
+                intersection_constraint[coord] = self._include_end(data.coord(coord), limits)
             else:
                 # These coordinates cannot be used with iris.cube.Cube.intersection(), will use iris.cube.Cube.extract()
                 extract_constraint = extract_constraint & iris.Constraint(**{coord: Contains(limits.start, limits.stop)})
         return extract_constraint, intersection_constraint
 
+    @staticmethod
+    def _include_end(coord, limits):
+        """
+        Iris wraps the points into a range which starts at the lower limit, make sure that the rounding this involves
+        doesn't exclude any point at the upper limit.
+        :return: (min, max) to use for the intersection
+        """
+        start, stop = limits.start, limits.stop
+        if not coord.has_bounds():
+            at_end = wrap_lons(coord.points[coord.points == stop], start, coord.units.modulus)
+            if len(at_end) > 0 and stop < at_end.max() <= start + coord.units.modulus:
+                stop = at_end.max()
+        return start, stop
+
 
 class UngriddedSubsetConstraint(SubsetConstraint):
     """
-- 
2.43.0


From 63715dccb01ebbabcfb45a1502f4721ce4a8d99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 28/52] fix: find all points within a distance (and the
 nearest) also towards the poles and across the date line

---
 cis/collocation/kdtree.py | 117 ++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 69 deletions(-)

diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index 5336c24..90acf81 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -311,7 +311,7 @@ class RectangleHaversine(RectangleBase):
         lat0 = point[0]
         # Shift point longitude to be within pi of rectangle mid-longitude.
         range_start = (rect_lon_min + rect_lon_max) / 2.0 - PI
-        lon0 = np.fmod(point[1] - range_start, TWO_PI) + range_start
+        lon0 = np.mod(point[1] - range_start, TWO_PI) + range_start
 
         inside = False
 
@@ -397,27 +397,48 @@ class RectangleHaversine(RectangleBase):
 
     def min_distance_rectangle(self, other):
         """
-        Compute the minimum distance between points in the two hyperrectangles.
-
-        :param other: hyperrectangle
-            Input.
-        :param p: float
-            Input.
+        Compute a lower bound of the distances between points in the two rectangles, which is zero if they overlap.
 
+        :param other: RectangleHaversine
+        :return: distance in kilometres
         """
-        return haversine_distance([0.0, 0.0], np.maximum(0, np.maximum(self.mins - other.maxes, other.mins - self.maxes)))
+        lat_gap = np.maximum(0, np.maximum(self.mins[0] - other.maxes[0], other.mins[0] - self.maxes[0]))
+        lon_mid, lon_width = self._longitude_separation(other)
+        lon_gap = np.maximum(0, lon_mid - lon_width)
+        return self._bound_on_distance(lat_gap, lon_gap, self._cos_latitudes()[0] * other._cos_latitudes()[0])
 
     def max_distance_rectangle(self, other):
         """
-        Compute the maximum distance between points in the two hyperrectangles.
+        Compute an upper bound of the distances between points in the two rectangles.
 
-        :param other: hyperrectangle
-            Input.
-        :param p: float, optional
-            Input.
+        :param other: RectangleHaversine
+        :return: distance in kilometres
+        """
+        lat_span = np.maximum(self.maxes[0] - other.mins[0], other.maxes[0] - self.mins[0])
+        lon_mid, lon_width = self._longitude_separation(other)
+        lon_span = np.minimum(180.0, lon_mid + lon_width)
+        return self._bound_on_distance(lat_span, lon_span, self._cos_latitudes()[1] * other._cos_latitudes()[1])
 
+    def _longitude_separation(self, other):
+        """
+        :return: the separation of the centres of the rectangles around the globe (0 to 180 degrees), and the sum of
+        their half-widths
+        """
+        centres = (self.mins[1] + self.maxes[1] - other.mins[1] - other.maxes[1]) / 2.0
+        widths = (self.maxes[1] - self.mins[1] + other.maxes[1] - other.mins[1]) / 2.0
+        return np.abs(np.mod(centres + 180.0, 360.0) - 180.0), widths
+
+    def _cos_latitudes(self):
+        """
+        :return: the smallest and the largest cosine of the latitudes of the rectangle
         """
-        return haversine_distance([0.0, 0.0], np.maximum(self.maxes - other.mins, other.maxes - self.mins))
+        ends = np.cos(np.radians([self.mins[0], self.maxes[0]]))
+        return ends.min(), 1.0 if self.mins[0] <= 0.0 <= self.maxes[0] else ends.max()
+
+    @staticmethod
+    def _bound_on_distance(lat_diff, lon_diff, cos_product):
+        hav = np.sin(np.radians(lat_diff) / 2) ** 2 + cos_product * np.sin(np.radians(lon_diff) / 2) ** 2
+        return 2 * RADIUS_EARTH * np.arcsin(np.sqrt(np.clip(hav, 0.0, 1.0)))
 
 
 class KDTree(object):
@@ -1176,40 +1197,25 @@ class HaversineDistanceKDTree(KDTree):
 
     def _query(self, x, k=1, eps=0, p=2, distance_upper_bound=np.inf):
 
-        metric = np.array([1.0] * x.size)
-        metric[1] = math.cos(x[1] * math.pi / 180.0)
-        side_distances = np.maximum(0, np.maximum(x - self.maxes, self.mins - x)) * metric
-        if p != np.inf:
-            side_distances **= p
-            min_distance = np.sum(side_distances)
-        else:
-            min_distance = np.amax(side_distances)
-
         # priority queue for chasing nodes
         # entries are:
         #  minimum distance between the cell and the target
-        #  distances between the nearest side of the cell and the target
+        #  a number to tell apart those at the same distance
         #  the head node of the cell
-        q = [(min_distance,
-              tuple(side_distances),
-              self.tree)]
+        #  the cell
+        rect = RectangleHaversine(self.maxes, self.mins)
+        q = [(rect.min_distance_point(x), 0, self.tree, rect)]
+        pushed = 1
         # priority queue for the nearest neighbors
         # furthest known neighbor first
-        # entries are (-distance**p, i)
+        # entries are (-distance, i)
         neighbors = []
 
-        if eps == 0:
-            epsfac = 1
-        elif p == np.inf:
-            epsfac = 1 / (1 + eps)
-        else:
-            epsfac = 1 / (1 + eps) ** p
-
-        if p != np.inf and distance_upper_bound != np.inf:
-            distance_upper_bound = distance_upper_bound ** p
-
         while q:
-            min_distance, side_distances, node = heappop(q)
+            min_distance, _, node, rect = heappop(q)
+            # since this is the nearest cell we're done if it is too far away
+            if min_distance > distance_upper_bound / (1. + eps):
+                break
             if isinstance(node, HaversineDistanceKDTree.leafnode):
                 # brute-force
                 data = self.data[node.idx]
@@ -1222,36 +1228,9 @@ class HaversineDistanceKDTree(KDTree):
                         if len(neighbors) == k:
                             distance_upper_bound = -neighbors[0][0]
             else:
-                # we don't push cells that are too far onto the queue at all,
-                # but since the distance_upper_bound decreases, we might get
-                # here even if the cell's too far
-                if min_distance > distance_upper_bound * epsfac:
-                    # since this is the nearest cell, we're done, bail out
-                    break
-                # compute minimum distances to the children and push them on
-                if x[node.split_dim] < node.split:
-                    near, far = node.less, node.greater
-                else:
-                    near, far = node.greater, node.less
-
-                # near child is at the same distance as the current node
-                heappush(q, (min_distance, side_distances, near))
-
-                # far child is further by an amount depending only
-                # on the split value
-                sd = list(side_distances)
-                if p == np.inf:
-                    min_distance = max(min_distance, abs(node.split - x[node.split_dim]))
-                elif p == 1:
-                    sd[node.split_dim] = np.abs(node.split - x[node.split_dim])
-                    min_distance = min_distance - side_distances[node.split_dim] + sd[node.split_dim]
-                else:
-                    sd[node.split_dim] = np.abs(node.split - x[node.split_dim]) ** p
-                    min_distance = min_distance - side_distances[node.split_dim] + sd[node.split_dim]
-
-                # far child might be too far, if so, don't bother pushing it
-                if min_distance <= distance_upper_bound * epsfac:
-                    heappush(q, (min_distance, tuple(sd), far))
+                for child, child_rect in zip((node.less, node.greater), rect.split(node.split_dim, node.split)):
+                    heappush(q, (child_rect.min_distance_point(x), pushed, child, child_rect))
+                    pushed += 1
 
         if p == np.inf:
             return sorted([(-d, i) for (d, i) in neighbors])
-- 
2.43.0


From b7732135cec7a7ac719fde0197bd45667a75e69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:46 +0000
Subject: [PATCH 29/52] fix: don't write the valid range of the source with
 derived gridded data

---
 cis/data_io/gridded_data.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 9ad9bc9..02597d4 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -9,7 +9,7 @@ import numpy as np
 from cis.data_io.common_data import CommonData, CommonDataList
 from cis.data_io.hyperpoint import HyperPoint
 from cis.data_io.hyperpoint_view import GriddedHyperPointView
-from cis.data_io.write_netcdf import replacing
+from cis.data_io.write_netcdf import replacing, storage_attributes
 from cis.utils import listify
 import six
 
@@ -301,7 +301,7 @@ class GriddedData(iris.cube.Cube, CommonData):
         if self.coords('time'):
             save_args['unlimited_dimensions'] = ['time']
         with replacing(output_file) as temporary:
-            iris.save(self, temporary, **save_args)
+            iris.save(_without_storage_attributes(self), temporary, **save_args)
 
     def as_data_frame(self, copy=True):
         """
@@ -450,7 +450,7 @@ class GriddedDataList(iris.cube.CubeList, CommonDataList):
             save_args['unlimited_dimensions'] = ['time']
 
         with replacing(output_file) as temporary:
-            iris.save(self, temporary, **save_args)
+            iris.save([_without_storage_attributes(cube) for cube in self], temporary, **save_args)
 
     def coord(self, *args, **kwargs):
         """
@@ -621,6 +621,20 @@ class GriddedDataList(iris.cube.CubeList, CommonDataList):
         return subset(self, GriddedSubsetConstraint, **kwargs)
 
 
+def _without_storage_attributes(cube):
+    """
+    The cube without any attributes which describe how the values were stored in the file they were read from
+
+    :param GriddedData cube: The cube to be saved (which isn't changed)
+    :return GriddedData: The cube itself, or a shallow copy
+    """
+    if any(name in cube.attributes for name in storage_attributes):
+        cube = cube.copy(cube.core_data())
+        for name in storage_attributes:
+            cube.attributes.pop(name, None)
+    return cube
+
+
 def _collapse_gridded(data, coords, kernel):
     """
     Collapse a GriddedData or GriddedDataList based on the specified grids (currently only collapsing is available)
-- 
2.43.0


From 817a6303c5c7d2835d96170ceda73d670b97814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:46 +0000
Subject: [PATCH 30/52] fix: subset to shapes which contain none of the points

---
 cis/subsetting/subset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index e09683a..f6a124f 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -297,7 +297,7 @@ def _get_indices_for_lat_lon_points(lats, lons, region):
 
     # Performance in this loop might be an issue, but I think it's essentially how GeoPandas does it. If I want to
     #  improve it I might need to look at using something like rtree.
-    return [i for i, p in enumerate(points.geoms) if region.contains(p)]
+    return np.array([i for i, p in enumerate(points.geoms) if region.contains(p)], dtype=int)
 
 
 def _get_ungridded_subset_region_indices(ungridded_data, region):
-- 
2.43.0


From 42a0df8632dfceba1c98b2d6fa0e70e407d97d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 31/52] fix: subset gridded data with longitude as the first
 dimension to shapes

---
 cis/subsetting/subset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index f6a124f..9adb812 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -307,5 +307,8 @@ def _get_ungridded_subset_region_indices(ungridded_data, region):
 
 def _get_gridded_subset_region_indices(gridded_data, region):
     # Using X and Y is a bit more general than lat and lon - the shapefiles needn't actually represent lat/lon
-    x, y = np.meshgrid(gridded_data.coord(axis='X').points, gridded_data.coord(axis='Y').points)
+    x_coord, y_coord = gridded_data.coord(axis='X'), gridded_data.coord(axis='Y')
+    # The order of the points has to be that of the dimensions of the data
+    x_first = gridded_data.coord_dims(x_coord) < gridded_data.coord_dims(y_coord)
+    x, y = np.meshgrid(x_coord.points, y_coord.points, indexing='ij' if x_first else 'xy')
     return _get_indices_for_lat_lon_points(x.flat, y.flat, region)
-- 
2.43.0


From da746fe34d33f605d7f1121e4b49494a4496a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 32/52] fix: leave the coordinates of the sample as they are
 when collocating onto a grid

---
 cis/collocation/col_implementations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index d11f3c9..41fb332 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -824,6 +824,8 @@ class GeneralGriddedCollocator(Collocator):
             # Ensure that bounds exist.
             if not coord.has_bounds():
                 logging.warning("Creating guessed bounds as none exist in file")
+                # Leave the coordinates of the sample as they were
+                coord = coords[ci] = coord.copy()
                 coord.guess_bounds()
             shape.append(coord.shape[0])
             output_coords.append(coord)
-- 
2.43.0


From 9cfad8823222c6d3edfc5f0b99ec96033a0211f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:03 +0000
Subject: [PATCH 33/52] fix: geometric and harmonic means of missing gridded
 values are missing rather than NaN

---
 cis/aggregation/collapse_kernels.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/cis/aggregation/collapse_kernels.py b/cis/aggregation/collapse_kernels.py
index 29951dc..1a75be7 100644
--- a/cis/aggregation/collapse_kernels.py
+++ b/cis/aggregation/collapse_kernels.py
@@ -56,6 +56,24 @@ class CountKernel(iris.analysis.Aggregator):
         cube.units = None
 
 
+class MeanOfValidKernel(iris.analysis.Aggregator):
+    """
+    Kernel for means which would otherwise give NaN, rather than a missing value, where all of the values are missing
+    """
+
+    def __init__(self, aggregator):
+        """
+        :param iris.analysis.Aggregator aggregator: The aggregator which calculates the mean
+        """
+        def call_func(data, axis, **kwargs):
+            result = aggregator.call_func(data, axis=axis, **kwargs)
+            if ma.is_masked(data):
+                result = ma.masked_where(ma.getmaskarray(data).all(axis=axis), result)
+            return result
+
+        super(MeanOfValidKernel, self).__init__(aggregator.cell_method, call_func)
+
+
 class MultiKernel(object):
     """
     Represents a set of kernels to be applied each in turn
@@ -74,8 +92,8 @@ class MultiKernel(object):
 
 aggregation_kernels = {'sum': iris.analysis.SUM,
                        'median': iris.analysis.MEDIAN,
-                       'gmean': iris.analysis.GMEAN,
-                       'hmean': iris.analysis.HMEAN,
+                       'gmean': MeanOfValidKernel(iris.analysis.GMEAN),
+                       'hmean': MeanOfValidKernel(iris.analysis.HMEAN),
                        'peak': iris.analysis.PEAK,
                        'RMS': iris.analysis.RMS,
                        'mean': iris.analysis.MEAN,
-- 
2.43.0


From b5444a9bf0241e733483574b2ed2beb8d38ecf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:55 +0000
Subject: [PATCH 34/52] fix: circularity of the coordinates after collocating
 gridded data is that of the sample

---
 cis/collocation/col_implementations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 41fb332..9c5c21a 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -737,6 +737,11 @@ class GriddedCollocator(Collocator):
         output_cube = make_from_cube(data.interpolate(coordinate_point_pairs,
                                                       kernel.interpolater(extrapolation_mode=extrapolate)))
 
+        # Iris keeps whether the coordinates of the data (rather than those of the sample) are circular
+        for cube in cis.utils.listify(output_cube):
+            for sample_coord in points.dim_coords:
+                cube.coord(sample_coord.name()).circular = sample_coord.circular
+
         # Iris outputs interpolated cubes with the dimensions in the order of the data grid, not the sample grid,
         # so we need to rearrange the order of the dimensions.
         output_coord_lookup = {}
-- 
2.43.0


From 5cc3680e72402c72a114c3df76f8537303c739b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 35/52] fix: collocate gridded data on a single vertical level
 onto points which have a vertical coordinate

---
 cis/collocation/gridded_interpolation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index f054ae3..e37c5b0 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -109,11 +109,11 @@ class GriddedUngriddedInterpolator(object):
                 sample_points[i] = np.where((points < first_point) | (points > last_point),
                                             (points - first_point) % (last_point - first_point) + first_point, points)
 
-        if len(data.coords('altitude', dim_coords=False)) > 0 and sample.coords(standard_name='altitude'):
+        if self._is_vertical_field(data, 'altitude') and sample.coords(standard_name='altitude'):
             hybrid_dims = data.coord_dims(data.coord('altitude'))
             hybrid_coord = self._match_grid_points(data.coord('altitude').points, hybrid_dims)
             sample_points.append(sample.coord(standard_name="altitude").data_flattened)
-        elif len(data.coords('air_pressure', dim_coords=False)) > 0 and sample.coords(standard_name='air_pressure'):
+        elif self._is_vertical_field(data, 'air_pressure') and sample.coords(standard_name='air_pressure'):
             hybrid_dims = data.coord_dims(data.coord('air_pressure'))
             hybrid_coord = self._match_grid_points(data.coord('air_pressure').points, hybrid_dims)
             sample_points.append(sample.coord(standard_name="air_pressure").data_flattened)
@@ -146,6 +146,14 @@ class GriddedUngriddedInterpolator(object):
         self._data_transpose.pop(vertical_dim)
         self._data_transpose.append(vertical_dim)
 
+    @staticmethod
+    def _is_vertical_field(data, name):
+        """
+        Whether the named vertical coordinate varies across the data (as e.g. hybrid coordinates do). If it's only the
+        single level which all of the data is on then we can't interpolate over it.
+        """
+        return any(data.coord_dims(coord) for coord in data.coords(name, dim_coords=False))
+
     def _match_grid_points(self, array, dims):
         """
         Invert and extend an array in the same way as the points of the decreasing and circular coordinates
-- 
2.43.0


From 4920537a2b9dbda5a9aad43007b87a7817683bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 36/52] fix: collocate data and samples in any range of
 longitudes

---
 cis/collocation/col_implementations.py |  5 ++++-
 cis/data_io/hyperpoint_view.py         | 19 ++-----------------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 9c5c21a..1537e94 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -1113,7 +1113,7 @@ def _find_standard_coords(cube, coordinate_mask):
 
 
 def _find_longitude_range(coords):
-    """Finds the start of the longitude range, assumed to be either 0,360 or -180,180
+    """Finds the start of the longitude range, which is either 0,360 or -180,180 unless the coordinates don't fit those
     :param coords: coordinates to check
     :return: starting value for longitude range or None if no longitude coordinate found
     """
@@ -1124,6 +1124,9 @@ def _find_longitude_range(coords):
             min_val = coord.points.min()
             if min_val < 0.0:
                 low = -180.0
+            max_val = coord.points.max()
+            if min_val < low or max_val >= low + 360.0:
+                low = (min_val + max_val) / 2.0 - 180.0
     return low
 
 
diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index 29d7d2b..40284e5 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -158,11 +158,7 @@ class UngriddedHyperPointView(HyperPointView):
         if self.longitude is None:
             return
 
-        range_end = range_start + 360.0
-
-        longitudes = self.coords[HyperPoint.LONGITUDE]
-        longitudes = np.where(longitudes < range_start, longitudes + 360, longitudes)
-        self.coords[HyperPoint.LONGITUDE] = np.where(longitudes >= range_end, longitudes - 360, longitudes)
+        self.coords[HyperPoint.LONGITUDE] = cis.utils.fix_longitude_range(self.coords[HyperPoint.LONGITUDE], range_start)
 
     @property
     def vals(self):
@@ -343,18 +339,7 @@ class GriddedHyperPointView(HyperPointView):
         if coord is None:
             return
 
-        range_end = range_start + 360.0
-        if coord is not None:
-            new_coord = np.empty_like(coord)
-            for i, lon in enumerate(coord):
-                if lon < range_start:
-                    new_lon = lon + 360.0
-                elif lon >= range_end:
-                    new_lon = lon - 360.0
-                else:
-                    new_lon = lon
-                new_coord[i] = new_lon
-            self.longitudes = new_coord
+        self.longitudes = cis.utils.fix_longitude_range(coord, range_start)
 
     def _dimension_index_for_hyperpoint_index(self, hp_index):
         """Finds the index of the dimension corresponding to a hyperpoint coordinate index.
-- 
2.43.0


From d0606e9af6ff3168c8711c17255d6423f0a3a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:10 +0000
Subject: [PATCH 37/52] fix: find the horizontally nearest point whatever the
 order of the coordinates

---
 cis/collocation/col_implementations.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 1537e94..159b894 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -474,7 +474,12 @@ class nn_horizontal(Kernel):
             Collocation using nearest neighbours along the face of the earth where both points and
               data are a list of HyperPoints. The default point is the first point.
         """
-        from cis.collocation.kdtree import haversine
+        from cis.collocation.kdtree import haversine_distance
+
+        def distance(point1, point2):
+            # The latitude and longitude aren't necessarily the first coordinates of the points
+            return haversine_distance([point1.latitude, point1.longitude], [point2.latitude, point2.longitude])
+
         iterator = data.iterrows()
         try:
             nearest_point = next(iterator)[1]
@@ -482,7 +487,7 @@ class nn_horizontal(Kernel):
             # No points to check
             raise ValueError
         for idx, data_point in iterator:
-            if (haversine(point, nearest_point) > haversine(point, data_point)):
+            if distance(point, nearest_point) > distance(point, data_point):
                 nearest_point = data_point
         return nearest_point.vals
 
-- 
2.43.0


From 953856a4e7b23ad53c5f2b552489568ece0be048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:22 +0000
Subject: [PATCH 38/52] fix: An UngriddedAggregator keeps its grid for the next
 aggregation

---
 cis/aggregation/ungridded_aggregator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cis/aggregation/ungridded_aggregator.py b/cis/aggregation/ungridded_aggregator.py
index 6f356e9..d037313 100644
--- a/cis/aggregation/ungridded_aggregator.py
+++ b/cis/aggregation/ungridded_aggregator.py
@@ -18,10 +18,11 @@ class UngriddedAggregator(object):
         from cis.collocation.col_implementations import GeneralGriddedCollocator, BinnedCubeCellOnlyConstraint
         new_cube_coords = []
         new_cube_shape = []
+        grids = dict(self._grid)
 
         for i, coord in enumerate(data.coords()):
             # Pop off the grid once we have it so that we can check for coords we didn't find
-            grid = self._grid.pop(coord.name(), None)
+            grid = grids.pop(coord.name(), None)
             if grid is None:
                 new_coord = self._make_fully_collapsed_coord(coord)
             else:
@@ -29,9 +30,9 @@ class UngriddedAggregator(object):
             new_cube_coords.append((new_coord, i))
             new_cube_shape.append(len(new_coord.points))
 
-        if len(self._grid) != 0:
+        if len(grids) != 0:
             raise CoordinateNotFoundError("No coordinate found that matches '{}'. Please check the coordinate "
-                                          "name.".format("' or '".join(list(self._grid.keys()))))
+                                          "name.".format("' or '".join(list(grids.keys()))))
 
         dummy_data = np.reshape(np.arange(int(np.prod(new_cube_shape))) + 1.0, tuple(new_cube_shape))
         aggregation_cube = Cube(dummy_data, dim_coords_and_dims=new_cube_coords)
-- 
2.43.0


From 2177d8b4493c984cd34784d8aa62cef59cee0787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:22 +0000
Subject: [PATCH 39/52] fix: A GriddedUngriddedCollocator can be used again for
 other points or another grid

---
 cis/collocation/col_implementations.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 159b894..c396f44 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -145,17 +145,23 @@ class GriddedUngriddedCollocator(Collocator):
                        a single value
         :return: A single LazyData object
         """
-        from cis.collocation.gridded_interpolation import GriddedUngriddedInterpolator
         log_memory_profile("GriddedUngriddedCollocator Initial")
 
+        # The interpolator only applies to these sample points and (one or more variables on) this grid
+        self.interpolator = None
+
         if isinstance(data, list):
-            # Indexing and constraints (for SepConstraintKdTree) will only take place on the first iteration,
-            # so we really can just call this method recursively if we've got a list of data.
+            # The interpolator will only be created on the first iteration
             output = UngriddedDataList()
             for var in data:
-                output.extend(self.collocate(points, var, constraint, kernel))
+                output.extend(self._collocate_single(points, var, constraint, kernel))
             return output
 
+        return self._collocate_single(points, data, constraint, kernel)
+
+    def _collocate_single(self, points, data, constraint, kernel):
+        from cis.collocation.gridded_interpolation import GriddedUngriddedInterpolator
+
         if constraint is not None and not isinstance(constraint, DummyConstraint):
             raise ValueError("A constraint cannot be specified for the GriddedUngriddedCollocator")
         data_points = data
-- 
2.43.0


From f2b4d925db03b37774e5501b6cf90191a79372be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:22 +0000
Subject: [PATCH 40/52] fix: A separation constraint doesn't use the neighbours
 found in earlier data

---
 cis/collocation/col_implementations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index c396f44..8cf5909 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -282,6 +282,7 @@ class SepConstraintKdtree(PointConstraint):
         super(SepConstraintKdtree, self).__init__()
 
         self._index_cache = {}
+        self._cached_index = None
         self.checks = []
         if h_sep is not None:
             self.h_sep = cis.utils.parse_distance_with_units_to_float_km(h_sep)
@@ -334,6 +335,10 @@ class SepConstraintKdtree(PointConstraint):
         return con_points
 
     def _get_cached_indices(self, ref_point):
+        if self._cached_index is not self.haversine_distance_kd_tree_index:
+            # The cached indices are those of other data
+            self._index_cache = {}
+            self._cached_index = self.haversine_distance_kd_tree_index
         # Don't use the value as a key (it's both irrelevant and un-hashable)
         return self._index_cache.get(tuple(ref_point[['latitude', 'longitude']].values), None)
 
-- 
2.43.0


From 906812f2a2c90e471805db81958269e5baaf9c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:51 +0000
Subject: [PATCH 41/52] fix: The history of a collapse names the variable and
 the files that were collapsed

---
 cis/data_io/gridded_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 02597d4..4105db8 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -664,13 +664,13 @@ def _collapse_gridded(data, coords, kernel):
         raise ValueError("Invalid kernel specified: " + str(kernel))
 
     aggregator = GriddedCollapsor(data, coords)
-    data = aggregator(kernel_inst)
+    output = aggregator(kernel_inst)
 
     history = "Collapsed using CIS version " + __version__ + \
               "\n variables: " + str(getattr(data, "var_name", "Unknown")) + \
               "\n from files: " + str(getattr(data, "filenames", "Unknown")) + \
               "\n over coordinates: " + ", ".join(c.name() for c in coords) + \
               "\n with kernel: " + str(kernel_inst) + "."
-    data.add_history(history)
+    output.add_history(history)
 
-    return data
+    return output
-- 
2.43.0


From aa2632f4b270663762205b5c2152b88276dca89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 42/52] fix: Each data object has its own list of file names

---
 cis/data_io/common_data.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/common_data.py b/cis/data_io/common_data.py
index 6c4901b..03aa39c 100644
--- a/cis/data_io/common_data.py
+++ b/cis/data_io/common_data.py
@@ -7,10 +7,26 @@ class CommonData(object):
     """
     Interface of common methods implemented for gridded and ungridded data.
     """
-    filenames = []
+    _filenames = None
 
     _alias = None
 
+    @property
+    def filenames(self):
+        """
+        Return the list of the files which this data object was read from. Each data object has a list of its own.
+
+        :return: The filenames
+        :rtype: list
+        """
+        if self._filenames is None:
+            self._filenames = []
+        return self._filenames
+
+    @filenames.setter
+    def filenames(self, filenames):
+        self._filenames = list(filenames)
+
     @property
     @abstractmethod
     def history(self):
@@ -344,7 +360,7 @@ class CommonDataList(list):
         Add these filenames to this data list
         """
         for data in self:
-            data.filenames.extend(names)
+            data.filenames = list(data.filenames) + list(names)
 
     def add_history(self, new_history):
         """
-- 
2.43.0


From b1f455d9170d8eb01b5c8701746411b4e39c03a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 43/52] fix: A file which is spelled in different ways is only
 read once

---
 cis/data_io/data_reader.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cis/data_io/data_reader.py b/cis/data_io/data_reader.py
index ac65da7..a560003 100644
--- a/cis/data_io/data_reader.py
+++ b/cis/data_io/data_reader.py
@@ -17,33 +17,40 @@ def expand_filelist(filelist):
     import os
     import six
     from glob import glob
-    from cis.utils import OrderedSet
 
     if isinstance(filelist, six.string_types):
         input_list = filelist.split(',')
     else:
         input_list = listify(filelist)
 
-    # Ensure we don't get duplicates by making file_set a set
-    file_set = OrderedSet()
+    # Ensure we don't get duplicates (the same file may be spelled differently), keeping the first spelling of each
+    file_set = []
+    found = set()
+
+    def add(filename):
+        path = os.path.abspath(filename)
+        if path not in found:
+            found.add(path)
+            file_set.append(filename)
+
     for element in input_list:
         if any(wildcard in element for wildcard in ['*', '?', ']', '}']):
             filelist = glob(element)
             filelist.sort()
             for filename in filelist:
-                file_set.add(filename)
+                add(filename)
         elif os.path.isdir(element):
             filelist = os.listdir(element)
             filelist.sort()
             for a_file in filelist:
                 full_file = os.path.join(element, a_file)
                 if os.path.isfile(full_file):
-                    file_set.add(full_file)
+                    add(full_file)
         elif os.path.isfile(element):
-            file_set.add(element)
+            add(element)
         else:
             raise ValueError("{} is not a valid filename".format(element))
-    return list(file_set)
+    return file_set
 
 
 class DataReader(object):
-- 
2.43.0


From a97ff187ccac1125e24f5eebee4c5f740160f0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 44/52] fix: The hidden files in a directory aren't read

---
 cis/data_io/data_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/data_reader.py b/cis/data_io/data_reader.py
index a560003..797449d 100644
--- a/cis/data_io/data_reader.py
+++ b/cis/data_io/data_reader.py
@@ -44,7 +44,8 @@ def expand_filelist(filelist):
             filelist.sort()
             for a_file in filelist:
                 full_file = os.path.join(element, a_file)
-                if os.path.isfile(full_file):
+                # Like the wildcards, leave out the hidden files (such as the left-overs of an interrupted save)
+                if not a_file.startswith('.') and os.path.isfile(full_file):
                     add(full_file)
         elif os.path.isfile(element):
             add(element)
-- 
2.43.0


From eefdb28478a99cfb2bc4336c183b2264e862b837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 45/52] fix: The variables matching a wildcard are read in a
 reproducible order

---
 cis/data_io/data_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/data_reader.py b/cis/data_io/data_reader.py
index 797449d..33ea788 100644
--- a/cis/data_io/data_reader.py
+++ b/cis/data_io/data_reader.py
@@ -123,7 +123,7 @@ class DataReader(object):
             if is_wildcard:
                 if file_variables is None:
                     file_variables = self._get_vars_func(filenames, product)
-                matches = fnmatch.filter(file_variables, variable)
+                matches = sorted(fnmatch.filter(file_variables, variable))
                 if len(matches) == 0:
                     logging.warning("No variables matching wildcard '%s' found in file." % variable)
                 else:
-- 
2.43.0


From b6dffb226b5e84ce2a32dff6c66962370f7fb14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 46/52] fix: The variable the coordinates are read from doesn't
 depend on the hash seed

---
 cis/data_io/products/MODIS.py          | 2 +-
 cis/data_io/products/gridded_NetCDF.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/products/MODIS.py b/cis/data_io/products/MODIS.py
index 5a9a8e8..addf9e0 100644
--- a/cis/data_io/products/MODIS.py
+++ b/cis/data_io/products/MODIS.py
@@ -176,7 +176,7 @@ class MODIS_L3(AProduct):
         """
         if variable is None:
             variable_names = self.get_variable_names(filenames)
-            variable_name = str(variable_names.pop())
+            variable_name = str(min(variable_names))
             logging.debug("Reading an IRIS Cube for the coordinates based on the variable %s" % variable_names)
         else:
             variable_name = variable
diff --git a/cis/data_io/products/gridded_NetCDF.py b/cis/data_io/products/gridded_NetCDF.py
index b30c69f..8d7ac36 100644
--- a/cis/data_io/products/gridded_NetCDF.py
+++ b/cis/data_io/products/gridded_NetCDF.py
@@ -63,7 +63,7 @@ class NetCDF_Gridded(AProduct):
         if variable is None:
             variable_names = self.get_variable_names(filenames)
             if len(variable_names) > 1:
-                variable_name = str(variable_names.pop())
+                variable_name = str(min(variable_names))
                 logging.debug("Reading an IRIS Cube for the coordinates based on the variable %s" % variable_names)
             else:
                 variable_name = None
-- 
2.43.0


From 9f7e0ffb6c7923a9bd4a83fa8516701edcd220c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 47/52] fix: Plugins are imported in a reproducible order

---
 cis/plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/plugin.py b/cis/plugin.py
index c0149d1..9ef13df 100644
--- a/cis/plugin.py
+++ b/cis/plugin.py
@@ -34,7 +34,7 @@ def find_plugins(plugin_dir, parent_class_name, verbose):
 
     plugin_files = []
     try:
-        for f in os.listdir(plugin_dir):
+        for f in sorted(os.listdir(plugin_dir)):
 
             if f.lower().endswith(('.pyc', '__init__.py')):
                 continue
-- 
2.43.0


From f5141076e510651a4eb03757c71b1bbd7f43a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:01 +0000
Subject: [PATCH 48/52] fix: Abstract classes in plugins are never used as
 products

---
 cis/plugin.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cis/plugin.py b/cis/plugin.py
index 9ef13df..62f0025 100644
--- a/cis/plugin.py
+++ b/cis/plugin.py
@@ -71,9 +71,7 @@ def find_plugin_classes(parent_class, built_in_module, verbose=True):
     subclasses = get_all_subclasses(parent_class, built_in_module)
     all_classes = plugin_classes + subclasses
 
-    for subclass in all_classes:
-        if subclass.__name__.startswith('abstract') or subclass.__name__.startswith('Abstract'):
-            all_classes.remove(subclass)
+    all_classes = [subclass for subclass in all_classes if not subclass.__name__.startswith(('abstract', 'Abstract'))]
 
     all_classes = sorted(all_classes, key=lambda subclass: subclass.__name__)
 
-- 
2.43.0


From f6369eb8bea51cc4b21574467efb21c0c52fd6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:01 +0000
Subject: [PATCH 49/52] fix: Plugins that were added since the last look at the
 plugin directory are found

---
 cis/plugin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cis/plugin.py b/cis/plugin.py
index 62f0025..3c874d0 100644
--- a/cis/plugin.py
+++ b/cis/plugin.py
@@ -21,6 +21,7 @@ def get_all_subclasses(parent_class, mod):
 
 
 def find_plugins(plugin_dir, parent_class_name, verbose):
+    import importlib
     import logging
     import os
     import sys
@@ -48,6 +49,8 @@ def find_plugins(plugin_dir, parent_class_name, verbose):
         return []
 
     sys.path.insert(0, plugin_dir)
+    # The files might have changed since the directory was last looked at
+    importlib.invalidate_caches()
 
     product_classes = []
     for plugin in plugin_files:
-- 
2.43.0


From 87b39b94f75f6b7c6ea00bc375bac3b5014242a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:11 +0000
Subject: [PATCH 50/52] fix: Errors while listing the contents of a HDF file
 are raised

---
 cis/data_io/hdf_sd.py | 7 +++----
 cis/data_io/hdf_vd.py | 6 ++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/cis/data_io/hdf_sd.py b/cis/data_io/hdf_sd.py
index ab60974..adf13c5 100755
--- a/cis/data_io/hdf_sd.py
+++ b/cis/data_io/hdf_sd.py
@@ -6,6 +6,7 @@ from cis.utils import listify
 # Optional HDF import, if the module isn't found we defer raising ImportError until it is actually needed.
 try:
     from pyhdf import SD
+    from pyhdf.error import HDF4Error
 except ImportError:
     SD = None
 
@@ -20,8 +21,6 @@ def get_hdf_SD_file_variables(filename):
     if not SD:
         raise ImportError("HDF support was not installed, please reinstall with pyhdf to read HDF files.")
 
-    variables = None
-
     try:
         # Open the file.
         datafile = SD.SD(filename)
@@ -29,8 +28,8 @@ def get_hdf_SD_file_variables(filename):
         variables = datafile.datasets()
         # Close the file
         datafile.end()
-    except:
-        logging.error("Error while reading SD data")
+    except HDF4Error as e:
+        raise IOError("Error while reading SD data: {}".format(e))
 
     return variables
 
diff --git a/cis/data_io/hdf_vd.py b/cis/data_io/hdf_vd.py
index cc387d8..9673168 100644
--- a/cis/data_io/hdf_vd.py
+++ b/cis/data_io/hdf_vd.py
@@ -10,7 +10,6 @@ except ImportError:
     HDF = None
 
 from collections import namedtuple
-import logging
 from cis.utils import create_masked_array_for_missing_values, listify
 
 
@@ -25,7 +24,6 @@ def get_hdf_VD_file_variables(filename):
     :param filename: The filename of the file to get the variables from
     :return: An OrderedDict containing the variables from the file
     """
-    variables = None
     if not HDF:
         raise ImportError("HDF support was not installed, please reinstall with pyhdf to read HDF files.")
 
@@ -42,8 +40,8 @@ def get_hdf_VD_file_variables(filename):
         # Close file
         vs.end()
         datafile.close()
-    except:
-        logging.error("Error while reading VD data")
+    except HDF4Error as e:
+        raise IOError("Error while reading VD data: {}".format(e))
 
     return variables
 
-- 
2.43.0


From 08f0904224aa59e2321281630352c5c9c1c92b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:05 +0000
Subject: [PATCH 51/52] fix: A NCAR-RAF file which can't be read at the moment
 isn't taken for another product

---
 cis/data_io/products/NCAR_NetCDF_RAF.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cis/data_io/products/NCAR_NetCDF_RAF.py b/cis/data_io/products/NCAR_NetCDF_RAF.py
index 3d9c5b0..ac9fa2d 100644
--- a/cis/data_io/products/NCAR_NetCDF_RAF.py
+++ b/cis/data_io/products/NCAR_NetCDF_RAF.py
@@ -331,6 +331,10 @@ class NCAR_NetCDF_RAF(AProduct):
         try:
             attributes = get_netcdf_file_attributes(filename)
         except (RuntimeError, IOError) as ex:
+            # A NetCDF file that can't be read just now isn't of another type
+            with open(filename, 'rb') as f:
+                if f.read(4).startswith((b'CDF', b'\x89HDF')):
+                    raise
             raise FileFormatError(["File is unreadable", ex.args[0]])
 
         attributes_lower = {attr.lower(): val for attr, val in list(attributes.items())}
-- 
2.43.0


From 5e3204ec7885a6ffcd21591f53c480640a29c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:00 +0000
Subject: [PATCH 52/52] fix: An EarthCARE file whose coordinates can't be read
 isn't read without them

---
 cis/data_io/products/EarthCARE.py | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/cis/data_io/products/EarthCARE.py b/cis/data_io/products/EarthCARE.py
index 4911fdc..dc010bd 100755
--- a/cis/data_io/products/EarthCARE.py
+++ b/cis/data_io/products/EarthCARE.py
@@ -124,12 +124,6 @@ class EarthCARE_MSI_ATL(AProduct):
                 else:
                     logging.info("Error reading variables for creating coords.")
                 return coords
-            except:
-                logging.info("Error reading variables for creating coords.")
-                return coords
-        except:
-            logging.info("Error reading variables for creating coords.")
-            return coords
 
         if variable is not None:
             reqdVarData = read_many_files_individually(filenames, [variable])
@@ -231,12 +225,6 @@ class EarthCARE_MSI_ATL(AProduct):
                 except InvalidVariableError:
                     logging.info("unknown exception when reading height")
                     pass
-                except:
-                    logging.info("unknown exception when reading height")
-                    pass
-                pass
-            except:
-                logging.info("unknown exception when reading height")
                 pass
 
         if ( True == b_altitude_found ) :
@@ -351,9 +339,6 @@ class EarthCARE_MSI_ATL(AProduct):
         except InvalidVariableError:
             logging.info("InvalidVariableError when reading variable: {}".format(variable))
             return
-        except:
-            logging.info("unknown when reading variable: {}".format(variable))
-            return
 
         logging.debug("get_metadata for -{}, shape {} ".format(var[variable][0].long_name,var[variable][0].shape))
         #logging.debug(var[variable][0])
-- 
2.43.0

