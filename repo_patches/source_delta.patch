From c5de25403f0d98b98238d5cbc997f2c4f0c4cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:49 +0000
Subject: [PATCH 01/81] fix: take field values found by the parent pattern
 literally in the child pattern

Values such as 'v1.0' or 'a+b' were inserted unescaped into the child's
regular expression, so names with other values matched, or own names did not.
---
 src/eumopps/catalogue/namepatterns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/catalogue/namepatterns.py b/src/eumopps/catalogue/namepatterns.py
index 660a51f..a25cf3e 100644
--- a/src/eumopps/catalogue/namepatterns.py
+++ b/src/eumopps/catalogue/namepatterns.py
@@ -51,12 +51,12 @@ def make_search_expression(pattern, knownvalues):
     result = result.replace('?', '.')  # question marks match any character
     for key, subs in EXPRESSION_SUBSTITUTES.iteritems():
         lookupkey = '%' + key
-        result = result.replace(lookupkey, knownvalues[subs[0]]
+        result = result.replace(lookupkey, re.escape(knownvalues[subs[0]])
                                 if subs[0] in knownvalues else '(?P<' + subs[0] + '>' + subs[1] + ')')
     for subs in TAG_FIELDS:
         lookup_lowercase_subs = '%' + subs.lower()
         if subs in knownvalues:
-            result = result.replace(lookup_lowercase_subs, knownvalues[subs].lower())
+            result = result.replace(lookup_lowercase_subs, re.escape(knownvalues[subs].lower()))
     # print '\n\npattern: ', result, '\n\n'
     return result
 
-- 
2.43.0


From 9ac874210f8c06111f457c6bd53af094718fe190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:49 +0000
Subject: [PATCH 02/81] fix: do not confuse different parent values whose
 concatenation is equal

nested_search_patterns grouped files by the concatenation of all parent
values, so A='x',B='yz' and A='xy',B='z' shared the values of whichever
was seen first.
---
 src/eumopps/catalogue/namepatterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/namepatterns.py b/src/eumopps/catalogue/namepatterns.py
index a25cf3e..5f6e72e 100644
--- a/src/eumopps/catalogue/namepatterns.py
+++ b/src/eumopps/catalogue/namepatterns.py
@@ -127,7 +127,7 @@ def nested_search_patterns(patterns, candidates):
             outcome = matcher.match(candidate.get_name())
             if outcome:
                 values = outcome.groupdict()
-                key = hash_string_dictionary(values)
+                key = tuple(sorted(values.iteritems()))
                 remainingpart = candidate.get_name()[outcome.end():]
                 entry = (candidate, remainingpart)
                 if key not in parentvalues:
-- 
2.43.0


From dc768cfe09093a0483919c9e54cad7168390dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:49 +0000
Subject: [PATCH 03/81] fix: microseconds are a fraction of a day in
 TimeBaseDays, not of a second

---
 src/eumopps/timeutils/timebase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/timeutils/timebase.py b/src/eumopps/timeutils/timebase.py
index 29ca676..e01f639 100644
--- a/src/eumopps/timeutils/timebase.py
+++ b/src/eumopps/timeutils/timebase.py
@@ -53,7 +53,7 @@ class TimeBaseDays(TimeBase):
     def datetime_to_number(self, d):
         """Convert datetime object to a floating point or integer number."""
         td = d - self.epoch
-        return float(td.days) + (float(td.seconds) / 86400.0) + (float(td.microseconds) / 1000000.0)
+        return float(td.days) + (float(td.seconds) / 86400.0) + (float(td.microseconds) / 86400000000.0)
 
     def number_to_datetime(self, n):
         """Convert number to datetime object."""
-- 
2.43.0


From e01f8885e202fe0314b9d69c11e422106ed75a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:49 +0000
Subject: [PATCH 04/81] fix: times on the day before the start are not part of
 the first daily step

index_at_time truncated towards zero, so files less than one day before the
start of the period were given to step 0.
---
 src/eumopps/catalogue/step.py                         | 2 +-
 src/eustace/analysis/advanced_standard/fileio/step.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/catalogue/step.py b/src/eumopps/catalogue/step.py
index 0b86390..abe3cd2 100644
--- a/src/eumopps/catalogue/step.py
+++ b/src/eumopps/catalogue/step.py
@@ -96,7 +96,7 @@ class StepDaily(Step):
 
     def index_at_time(self, t):
 
-        return int( self.timebase().datetime_to_number(t) )
+        return (t - self.timebase().epoch).days
 
     def time_at_index(self, operationindex):
 
diff --git a/src/eustace/analysis/advanced_standard/fileio/step.py b/src/eustace/analysis/advanced_standard/fileio/step.py
index a0cad7e..2e3a165 100644
--- a/src/eustace/analysis/advanced_standard/fileio/step.py
+++ b/src/eustace/analysis/advanced_standard/fileio/step.py
@@ -41,7 +41,7 @@ class StepDailyEpoch(StepDaily):
         return name
         
     def index_at_time(self, t):
-        return int( self.timebase().datetime_to_number(t) )
+        return (t - self.timebase().epoch).days
 
     def time_at_index(self, operationindex):
         return self.timebase().number_to_datetime(operationindex)
\ No newline at end of file
-- 
2.43.0


From 9457cff0d40f0f14047b866d1667d2657cbaf9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:06 +0000
Subject: [PATCH 05/81] fix: the last seconds of a year belong to that year in
 TimeBaseAnnual

Seconds within a year exceed float32 precision: 31 December 23:59:59 was
rounded up to the start of the next year.
---
 src/eumopps/timeutils/timebase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/timeutils/timebase.py b/src/eumopps/timeutils/timebase.py
index e01f639..ea3568e 100644
--- a/src/eumopps/timeutils/timebase.py
+++ b/src/eumopps/timeutils/timebase.py
@@ -131,10 +131,10 @@ class TimeBaseAnnual(TimeBase):
         year_end = datetime(d.year + 1, 1, 1)
 
         # Seconds since start of year
-        t_seconds = float32( (d - year_start).total_seconds() )
+        t_seconds = float( (d - year_start).total_seconds() )
 
         # Total seconds in this year
-        total_seconds = float32( (year_end - year_start).total_seconds() )
+        total_seconds = float( (year_end - year_start).total_seconds() )
         
         return t_seconds / total_seconds
 
-- 
2.43.0


From 6f6c68ec3f3e23d0bb96b976dfe8fea2b37535ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 06/81] fix: dataset_filter option of catalogue build

---
 src/eumopps/catalogue/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/build.py b/src/eumopps/catalogue/build.py
index 86255f3..80b5d1f 100644
--- a/src/eumopps/catalogue/build.py
+++ b/src/eumopps/catalogue/build.py
@@ -48,7 +48,7 @@ def build(inputcatalogue, cataloguefilename, update=False, dataset_filter=None,
             raise ValueError('requested dataset \"{0}\" not found'.format(dataset_filter))
 
         # Restrict to requested
-        inputcatalogue.datasets = [ inputcatalogue.dataset[datasetindex] ]
+        inputcatalogue.datasets = [ inputcatalogue.datasets[datasetindex] ]
 
     # search for data and compute checksums
     for dataset in inputcatalogue.datasets:
-- 
2.43.0


From 3e6c8383093389a19f8cbf33bca20b4c78c4ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 07/81] fix: run operations whose run module is a class

---
 src/eumopps/catalogue/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/operation.py b/src/eumopps/catalogue/operation.py
index 9a247dd..4446712 100644
--- a/src/eumopps/catalogue/operation.py
+++ b/src/eumopps/catalogue/operation.py
@@ -38,7 +38,7 @@ class Operation(object):
 
         if hasattr(self.runmodule, 'run'):
 
-            return runmodule.run()
+            return self.runmodule.run()
 
         else:
 
-- 
2.43.0


From 5e26892df0820e63f29cf945db271a476fad9bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:19 +0000
Subject: [PATCH 08/81] fix: refuse operation indices outside the counted range

A negative index ran an operation counted from the end, and operations
without per-step parameters ran for any index.
---
 src/eumopps/catalogue/commandrun.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eumopps/catalogue/commandrun.py b/src/eumopps/catalogue/commandrun.py
index 9ee93a4..d038746 100644
--- a/src/eumopps/catalogue/commandrun.py
+++ b/src/eumopps/catalogue/commandrun.py
@@ -32,6 +32,10 @@ def commandrun(timestamp, cataloguepathname, operationname, index, use_batch_siz
 
     if operation is not None:
 
+        # Only the operations counted in the catalogue can be run
+        if (operation.count is not None) and not (0 <= operationindex < operation.count):
+            raise ValueError('operation index out of range')
+
         # The toolchain member of operation object is the one just loaded from catalogue
         catalogue_toolchain = operation.toolchain
 
-- 
2.43.0


From 9fcb32694be2088caf2c8702834f42b8e42aca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:21 +0000
Subject: [PATCH 09/81] fix: count operations in suite batch helpers with the
 existing reader method

---
 src/eumopps/catalogue/jinja/batches.py      | 4 ++--
 src/eumopps/catalogue/jinja/eumopps_cylc.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eumopps/catalogue/jinja/batches.py b/src/eumopps/catalogue/jinja/batches.py
index b51d410..0c10988 100644
--- a/src/eumopps/catalogue/jinja/batches.py
+++ b/src/eumopps/catalogue/jinja/batches.py
@@ -17,12 +17,12 @@ class BatchSpecification(object):
     def operation_count(self):
         """Query catalogue to find operations."""
 
-        return CatalogueReaderNetCDF().quickcount(self.catalogue, self.modulename, 'operations')
+        return CatalogueReaderNetCDF().operationcount(self.catalogue, self.modulename)
 
     def cycle_points_required(self):
         """Get cycle points required to cover required operations, assuming number of operations per cycle point is self.batchsize."""
 
-        return CatalogueReaderNetCDF().quickcount(self.catalogue, self.modulename, 'operations', batchsize=self.batchsize)
+        return CatalogueReaderNetCDF().operationcount(self.catalogue, self.modulename, batchsize=self.batchsize)
 
     def scheduling(self):
         """String for scheduling item."""
diff --git a/src/eumopps/catalogue/jinja/eumopps_cylc.py b/src/eumopps/catalogue/jinja/eumopps_cylc.py
index b4f0a8d..28d8ce0 100644
--- a/src/eumopps/catalogue/jinja/eumopps_cylc.py
+++ b/src/eumopps/catalogue/jinja/eumopps_cylc.py
@@ -11,7 +11,7 @@ def eumopps_cylc(config, methodname, modulename=None):
 
 def eumopps_cycle_points_required(specs):
     
-    return BatchSpecificationCollection(specs).cyle_points_required()
+    return BatchSpecificationCollection(specs).cycle_points_required()
 
 def eumopps_initial_cycle_point(specs):
 
-- 
2.43.0


From 4746dd368ebd604337285162b1b09490caa23804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:33 +0000
Subject: [PATCH 10/81] fix: keep missing numbers and times in place when
 reading lists back

Elements written as missing were dropped on reading, so in a list of
catalogue entries the values after a missing one moved to other entries
(for example sizes, when a file could not be checksummed).
---
 src/eumopps/netcdfobjects/netcdfobjects.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index 190c86b..acdee42 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -88,16 +88,12 @@ def read_variable(variable):
 
         elif variable.ndim == 1:
 
-            # Remove any masked ones
-            if hasattr(result, 'mask'):
-                result = result.data[~result.mask]
-
-            # Convert to list
+            # Convert to list (masked elements become None, so that others keep their position)
             result = result.tolist()
 
             # Convert to datetime if requested
             if ('units' in variable.ncattrs()) and (variable.units == TIMEBASE.units()):
-                result = [ TIMEBASE.number_to_datetime(element) for element in result ]
+                result = [ TIMEBASE.number_to_datetime(element) if (element is not None) else None for element in result ]
 
         elif variable.ndim == 2:
 
-- 
2.43.0


From 7069a064dbd0f82bef7512fe02a06c4133f3abbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:33 +0000
Subject: [PATCH 11/81] fix: missing inputs can be resolved when their data set
 has no files at all

---
 src/eumopps/catalogue/fileio/formatnetcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/fileio/formatnetcdf.py b/src/eumopps/catalogue/fileio/formatnetcdf.py
index ba39403..e805a53 100644
--- a/src/eumopps/catalogue/fileio/formatnetcdf.py
+++ b/src/eumopps/catalogue/fileio/formatnetcdf.py
@@ -107,10 +107,10 @@ class CatalogueReaderNetCDF(CatalogueReader):
         for ref in reflist:
             dataset = ncfile.groups[netcdfobjects.LISTITEM_OBJECT_SUFFIX.format('datasets', ref.dataset)]
             subset = dataset.groups[netcdfobjects.LISTITEM_OBJECT_SUFFIX.format('subsets', ref.subset)]
-            matches = subset.groups['matches']
             
             # Construct pathname if the entry index is valid, otherwise no match is available in the catalogue
             if ref.entry>=0:
+                matches = subset.groups['matches']
                 name = str(chartostring(matches.variables['name'][ref.entry, :]))
                 path = dataset.getncattr('path')
                 names.append(os.path.join(path, name))
-- 
2.43.0


From 0c002fb9d4212f3a582e1a81d973d86f20df0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:11 +0000
Subject: [PATCH 12/81] fix: a catalogue write that fails part way leaves the
 existing catalogue in place

---
 src/eumopps/catalogue/fileio/formatnetcdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/fileio/formatnetcdf.py b/src/eumopps/catalogue/fileio/formatnetcdf.py
index e805a53..3982355 100644
--- a/src/eumopps/catalogue/fileio/formatnetcdf.py
+++ b/src/eumopps/catalogue/fileio/formatnetcdf.py
@@ -132,7 +132,10 @@ class CatalogueWriterNetCDF(CatalogueWriter):
     def save(self, pathname, catalogue):
         """Save specified catalogue."""
 
-        ncfile = netcdfobjects.nc_open_for_save(pathname)
+        # Write to temporary file first so that an existing catalogue is only replaced by a complete one
+        temporaryname = pathname + '.tmp'
+        ncfile = netcdfobjects.nc_open_for_save(temporaryname)
         netcdfobjects.save_complex_python_object(ncfile, item=catalogue, membername=None)
         ncfile.close()
+        os.rename(temporaryname, pathname)
     
-- 
2.43.0


From bd8756f54a500350a75a8e12c297c99e6d719cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:38 +0000
Subject: [PATCH 13/81] fix: read back two-dimensional lists without any
 missing element

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index acdee42..a5a5ec2 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -99,7 +99,8 @@ def read_variable(variable):
 
             # Remove any masked per-row and convert to lists
             if hasattr(result, 'mask'):
-                result = [ (result.data[rowindex,~result.mask[rowindex,:]]).tolist() for rowindex in range(variable.shape[0]) ]
+                mask = numpy.ma.getmaskarray(result)
+                result = [ (result.data[rowindex,~mask[rowindex,:]]).tolist() for rowindex in range(variable.shape[0]) ]
             else:
                 result = [ (result[rowindex,:]).tolist() for rowindex in range(variable.shape[0]) ]
 
-- 
2.43.0


From 513e5b6a0bf7f79c6dc300781b5212f489faed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:23 +0000
Subject: [PATCH 14/81] fix: catalogues can be loaded when all runs of an
 operation were skipped

---
 src/eumopps/catalogue/operationparameters.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eumopps/catalogue/operationparameters.py b/src/eumopps/catalogue/operationparameters.py
index 92db459..375aa87 100644
--- a/src/eumopps/catalogue/operationparameters.py
+++ b/src/eumopps/catalogue/operationparameters.py
@@ -13,10 +13,11 @@ class OperationParameter(object):
 class OperationParameterList(OperationParameter):
     """Base class stored on final catalogues which lists parameters for multiple operations."""
 
-    def __init__(self, operation_parameters):
+    def __init__(self, operation_parameters=None):
         """Initialise with given list."""
 
-        self.operation_parameters = operation_parameters
+        # Empty lists (when every operation was skipped) are not stored and hence not given when loading
+        self.operation_parameters = operation_parameters if (operation_parameters is not None) else [ ]
 
     def restrict_to_subset(self, restrict_to_operations):
         """Restrict to specified list of operation indices. 
@@ -38,7 +39,7 @@ class OperationParameterList(OperationParameter):
 class OperationFileReference(OperationParameterList):
     """Intermediate class holding dataset references grouped by step index."""
     
-    def __init__(self, operation_parameters):
+    def __init__(self, operation_parameters=None):
         """Store reference."""
         
         super(OperationFileReference, self).__init__(operation_parameters)
@@ -53,7 +54,7 @@ class OperationFileReference(OperationParameterList):
 class OperationFileListReference(OperationParameterList):
     """Intermediate class holding dataset references grouped by step index."""
     
-    def __init__(self, operation_parameters):
+    def __init__(self, operation_parameters=None):
         """Store reference."""
         
         super(OperationFileListReference, self).__init__(operation_parameters)
-- 
2.43.0


From a07a9ace0f0a26007635dcc4768f46cb80377d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:30 +0000
Subject: [PATCH 15/81] fix: keep class and members of each element when
 storing lists of different objects

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index a5a5ec2..1df9c3e 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -248,9 +248,17 @@ def is_simple_python_object(x):
     y = object_dictionary(x)
     return (y is not None) and all([ (value is None) or is_simple_type_or_list_of_simple_types(value) for value in y.values() ])
 
+def is_same_kind_of_object(x, y):
+
+    return (type(x) == type(y)) and ((x is None) or (set(object_dictionary(x)) == set(object_dictionary(y))))
+
 def is_list_of_simple_python_objects(x):
 
-    return isinstance(x, list) and all([ (element is None) or is_simple_python_object(element) for element in x ])
+    # These are stored using the class and member names of the first one, so must all have the same
+    return \
+        isinstance(x, list) and \
+        all([ (element is None) or is_simple_python_object(element) for element in x ]) and \
+        all([ is_same_kind_of_object(element, x[0]) for element in x ])
 
 def is_list_of_python_objects(x):
 
-- 
2.43.0


From bc5090518ff4ec9e02e759f788c4ae1d6a430599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:30 +0000
Subject: [PATCH 16/81] fix: two-dimensional lists of strings can be stored as
 members, such as the unused contents of archives

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index 1df9c3e..3e8a02b 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -514,10 +514,13 @@ def save_string_list2d(group, membername, array2d, dimensionname):
     # Name used to store length of strings
     lengthname = STRING_LENGTH_DIMENSION_FORMAT.format(membername)
 
+    # Name used to store number of columns (when leading dimension is already called after the member)
+    columnname = membername if (dimensionname != membername) else (membername + "2")
+
     # Build new variable
-    group.createDimension(membername, max([ len(element) if element else 0 for element in array2d]))
+    group.createDimension(columnname, max([ len(element) if element else 0 for element in array2d]))
     group.createDimension(lengthname, max_length)
-    group.createVariable(membername, 'S1', [dimensionname, membername, lengthname])
+    group.createVariable(membername, 'S1', [dimensionname, columnname, lengthname])
 
     # populate contents
     for index, element in enumerate(array2d):
-- 
2.43.0


From 23b511f4cad229a422cc657701d51809adb9f0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:30 +0000
Subject: [PATCH 17/81] fix: times can be stored as members of objects which
 also have objects as members

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index 3e8a02b..1601299 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -288,9 +288,7 @@ def save_simple_python_object(parentgroup, itemname, item):
         elif is_type(subvalue, DATETIME_TYPES):
 
             # Special case for saving single date value (because must save units)
-            newvariable = subgroup.createVariable(varname=subkey, datatype='i8')
-            newvariable[:] = TIMEBASE.datetime_to_number(subvalue)
-            newvariable.units = TIMEBASE.units()
+            save_datetime(subgroup, subkey, subvalue)
 
         elif is_type(subvalue, SIMPLE_TYPES):
 
@@ -373,6 +371,11 @@ def save_object(group, key, value):
         # Just skip None values or empty lists
         pass
 
+    elif is_type(value, DATETIME_TYPES):
+
+        # Special case for saving single date value (because must save units)
+        save_datetime(group, key, value)
+
     elif is_type(value, SIMPLE_TYPES):
 
         # Set an individual value attribute
@@ -457,6 +460,12 @@ def save_list_of_simple_values(group, membername, outputlist, dimensionname=None
 
         raise ValueError('type not supported for {0}'.format(membername))
 
+def save_datetime(group, membername, value):
+
+    newvariable = group.createVariable(varname=membername, datatype='i8')
+    newvariable[:] = TIMEBASE.datetime_to_number(value)
+    newvariable.units = TIMEBASE.units()
+
 def save_numeric_list(group, membername, outputlist, dimensionname, dtype):
 
     newvariable = group.createVariable(membername, dtype, [ dimensionname ])
-- 
2.43.0


From bbee1c65483ab7f6af5f6447c26863d6f20283f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:04 +0000
Subject: [PATCH 18/81] fix: catalogues which describe archives can be read
 back

---
 src/eumopps/catalogue/storage.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/storage.py b/src/eumopps/catalogue/storage.py
index ce50f37..01db47d 100644
--- a/src/eumopps/catalogue/storage.py
+++ b/src/eumopps/catalogue/storage.py
@@ -46,9 +46,15 @@ class DataStorageArchive(DataStorage):
     def __init__(self, archivepathname, internalpathname):
 
         super(DataStorageArchive, self).__init__()
-        self.pathname = archivepathname
+        self.archivepathname = archivepathname
         self.internalpathname = internalpathname
 
+    @property
+    def pathname(self):
+        """Name pattern of archives."""
+
+        return self.archivepathname
+
     def match_files(self, catalogue_subset, datasetpath, candidates):
         """Search for matching files on the specified path and inside the archive files"""
 
-- 
2.43.0


From acae5f64db6fe005564b0055124581da1378ca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:46 +0000
Subject: [PATCH 19/81] fix: objects in lists can have several members which
 are lists of numbers

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index 1601299..4dbe621 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -545,7 +545,7 @@ def save_numeric_list2d(group, membername, array2d, dimensionname, dtype):
 
     numrows = len(array2d)
     maxcols = max([ len(element) if element else 0 for element in array2d])
-    dimensionname2 = dimensionname + "2"
+    dimensionname2 = membername + "2"
     group.createDimension(dimensionname2, maxcols)
     newvariable = group.createVariable(membername, dtype, [ dimensionname, dimensionname2 ])
     contents = numpy.ma.masked_all((numrows, maxcols), dtype=dtype)
-- 
2.43.0


From 28937efc76015ae7bb0ce0560ec4b43c91ea7a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:36 +0000
Subject: [PATCH 20/81] fix: window and calendar checks treat the absence of
 all neighbouring files as no constraint

---
 src/eustace/postprocess/calendar_check.py | 6 ++++++
 src/eustace/postprocess/window_check.py   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/eustace/postprocess/calendar_check.py b/src/eustace/postprocess/calendar_check.py
index 0dfc5a8..e88784d 100644
--- a/src/eustace/postprocess/calendar_check.py
+++ b/src/eustace/postprocess/calendar_check.py
@@ -118,6 +118,12 @@ def calendar_constraint_checks(input_directory, output_directory, iteration, ref
             if day_to_load.year > reference_time.year:
                 post_constraint_count[isconstrained]+=1
 
+    # no other years available means no constraint
+    if prior_constraint_count is None:
+        prior_constraint_count = numpy.zeros(flag_values.shape, numpy.int64)
+    if post_constraint_count is None:
+        post_constraint_count = numpy.zeros(flag_values.shape, numpy.int64)
+
     # compute summary flags          
     prior_constrained = prior_constraint_count < COUNT_THRESHOLD
     post_constrained = post_constraint_count < COUNT_THRESHOLD
diff --git a/src/eustace/postprocess/window_check.py b/src/eustace/postprocess/window_check.py
index 0ee7d2f..cb7bd84 100644
--- a/src/eustace/postprocess/window_check.py
+++ b/src/eustace/postprocess/window_check.py
@@ -110,6 +110,12 @@ def local_window_constraint_checks(input_directory, output_directory, iteration,
             if dayshift > 0:
                 post_constraint_count[isconstrained]+=1
 
+    # no neighbouring days available means no constraint
+    if prior_constraint_count is None:
+        prior_constraint_count = numpy.zeros(flag_values.shape, numpy.int64)
+    if post_constraint_count is None:
+        post_constraint_count = numpy.zeros(flag_values.shape, numpy.int64)
+
     # compute summary flags          
     prior_constrained = prior_constraint_count < count_threshold
     post_constrained = post_constraint_count < count_threshold
-- 
2.43.0


From 3accec95612627e0fc70f598196aef53445fa823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:54 +0000
Subject: [PATCH 21/81] fix: break points without missing likelihoods are read
 as records, not as one nested record

---
 src/eustace/preprocess/fileio/insitu_land_breakpoints.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/eustace/preprocess/fileio/insitu_land_breakpoints.py b/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
index cb6fb7e..8180f93 100644
--- a/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
+++ b/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
@@ -69,10 +69,7 @@ class ObservationBreakPointSourceInsituLand(ObservationSource):
 
         break_likelihood = self.dataset.variables[ObservationBreakPointSourceInsituLand.OBSERVATIONMAPS[observable]['break_likelihood'].name]
 
-        if hasattr(break_likelihood[:],'mask'):
-            likelihood_mask = ~break_likelihood[:].mask
-        else:
-            likelihood_mask = numpy.broadcast_to(numpy.array([True]),break_likelihood[:].shape)
+        likelihood_mask = ~numpy.ma.getmaskarray(break_likelihood[:])
 
         parameters = {}
         keys = ObservationBreakPointSourceInsituLand.OBSERVATIONMAPS[observable].keys()
-- 
2.43.0


From 4ceb19e02e0a9febd35597ce99794c9f673bd77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:54 +0000
Subject: [PATCH 22/81] fix: the C++ reader leaves out break points without
 likelihood, as the Python reader does

---
 .../break_points/insitu_land_break_points.cpp | 25 +++++++++++++++++--
 .../break_points/insitu_land_break_points.h   |  1 +
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/cpp/eustace/analysis/break_points/insitu_land_break_points.cpp b/src/cpp/eustace/analysis/break_points/insitu_land_break_points.cpp
index 890f24b..de2b50d 100644
--- a/src/cpp/eustace/analysis/break_points/insitu_land_break_points.cpp
+++ b/src/cpp/eustace/analysis/break_points/insitu_land_break_points.cpp
@@ -26,6 +26,14 @@ namespace EUSTACE
       }
   }
 
+  bool BreakNetCDFHelper::GetFillValue(int8_t& value, const char* name) const
+  {
+    int varid(0);
+    if (nc_inq_varid(ncid, name, &varid) != NC_NOERR)
+      return false;
+    return nc_get_att_schar(ncid, varid, "_FillValue", (signed char*)&value) == NC_NOERR;
+  }
+
   template<class DataT> void BreakNetCDFHelper::ReadData(std::vector<DataT>& contents, const char* name) const throw (BreakPointsReaderException)
   {
     
@@ -106,9 +114,22 @@ namespace EUSTACE
     netcdf.ReadData<int32_t>(break_station, station);
     netcdf.ReadData<int8_t>(temp_break_likelihood, likelihood);
     
-    std::vector<int> break_likelihood(npoints);
+    // Records without likelihood are left out
+    int8_t missing(0);
+    const bool has_missing = netcdf.GetFillValue(missing, likelihood);
+    std::vector<int> break_likelihood;
+    size_t count(0);
     for(unsigned i = 0; i <npoints ; i++)
-      break_likelihood[i]=int(temp_break_likelihood[i]);
+      {
+	if (has_missing && temp_break_likelihood[i] == missing)
+	  continue;
+	break_time[count] = break_time[i];
+	break_station[count] = break_station[i];
+	break_likelihood.push_back(int(temp_break_likelihood[i]));
+	count++;
+      }
+    break_time.resize(count);
+    break_station.resize(count);
 
     ObservationBreakingPoints* observation = new ObservationBreakingPoints(break_time, break_station, break_likelihood);
 
diff --git a/src/cpp/eustace/analysis/break_points/insitu_land_break_points.h b/src/cpp/eustace/analysis/break_points/insitu_land_break_points.h
index 23060ec..c3993fe 100644
--- a/src/cpp/eustace/analysis/break_points/insitu_land_break_points.h
+++ b/src/cpp/eustace/analysis/break_points/insitu_land_break_points.h
@@ -42,6 +42,7 @@ namespace EUSTACE
   
   public:
     void GetDimensions(std::vector<size_t>& dimensions, const char* name) const throw (BreakPointsReaderException);
+    bool GetFillValue(int8_t& value, const char* name) const;
     template<class DataT> void ReadData(std::vector<DataT>& contents, const char* name) const throw (BreakPointsReaderException);
     
   private:
-- 
2.43.0


From 7522715faab3d8add596b419049410378e29b8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:54 +0000
Subject: [PATCH 23/81] fix: observations are read only with the location table
 they were written for

---
 src/eustace/analysis/fileio/observationsource_rawbinary.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eustace/analysis/fileio/observationsource_rawbinary.py b/src/eustace/analysis/fileio/observationsource_rawbinary.py
index bee439f..2ba3ab8 100644
--- a/src/eustace/analysis/fileio/observationsource_rawbinary.py
+++ b/src/eustace/analysis/fileio/observationsource_rawbinary.py
@@ -130,6 +130,11 @@ class ObservationRawBinaryReader(RawBinaryLocationCategoryReader):
         # get uuid
         location_uuid = self.read_header_from_stream(file_handle)
 
+        # check it matches the one given for verification
+        if location_uuid != verify_location_uuid:
+            file_handle.close()
+            raise Exception('Location UUID mismatch')
+
         # read data
         contents = numpy.fromfile(file_handle, dtype=ObservationRawBinaryWriter.build_dtype(self.basecategory, self.num_local_correlation_ranges))
 
-- 
2.43.0


From 1a6b8fb5fcc5351d1c36fc11abb6440a5afd6a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:54 +0000
Subject: [PATCH 24/81] fix: location pointers can be read back (missing
 import, scalar offsets and counts)

---
 src/eustace/analysis/fileio/locationpointers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/fileio/locationpointers.py b/src/eustace/analysis/fileio/locationpointers.py
index 309c695..b70bb8c 100644
--- a/src/eustace/analysis/fileio/locationpointers.py
+++ b/src/eustace/analysis/fileio/locationpointers.py
@@ -6,6 +6,7 @@ from observationsource_rawbinary import ObservationRawBinaryWriter
 from observationsource_rawbinary import LocalCorrelationRangeRawBinaryReader
 from observationsource_rawbinary import CATEGORY_OBSERVATION
 import numpy
+import uuid
 
 FORMATID_LOCATION_POINTERS = 'EUSTACELOCP00001'
 """Format identifier placed at start of correlated uncertainty binary files."""
@@ -119,7 +120,7 @@ class LocationPointersRawBinaryReader(object):
             raise Exception('Location UUID mismatch')
 
         # read count
-        location_count = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
+        location_count = int(numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)[0])
 
         # check locaton_id in range
         if (location_id < 0) or (location_id >= location_count):
@@ -129,8 +130,8 @@ class LocationPointersRawBinaryReader(object):
         file_handle.seek(16 * location_id, 1)   # The 1 here indicates seek from current position
 
         # read offset table info
-        record_offset = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
-        record_count = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
+        record_offset = int(numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)[0])
+        record_count = int(numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)[0])
 
         # seek to offset
         file_handle.seek(record_offset)
-- 
2.43.0


From b06b3587236a1a0bacd4ae91643029753d381ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:54 +0000
Subject: [PATCH 25/81] fix: altitude adjustment without hold-out list is not
 taken for the hold-out file

---
 src/eustace/analysis/preparedailyfixed.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/eustace/analysis/preparedailyfixed.py b/src/eustace/analysis/preparedailyfixed.py
index 3062faa..2171441 100644
--- a/src/eustace/analysis/preparedailyfixed.py
+++ b/src/eustace/analysis/preparedailyfixed.py
@@ -36,10 +36,7 @@ def run_day(outputfilename, locationfilename, dailyfilename, processdate, source
     # Get the info
     if sourcename == SOURCE_INSITU_LAND:
         # special case for land to load only data relevant to given day number
-        if hold_out_list == None:
-            source = SOURCECLASS[sourcename](dailyfilename, daynumber, altitude_adjustment)
-        else:
-            source = SOURCECLASS[sourcename](dailyfilename, daynumber, hold_out_list, altitude_adjustment)
+        source = SOURCECLASS[sourcename](dailyfilename, daynumber, hold_out_filename=hold_out_list, altitude_adjustment=altitude_adjustment)
         
         # Load it
         dailydata = source.observations(observable, qc_mask)
-- 
2.43.0


From 3d7a60b6ff94d9a202117ed8d001fb22f72b7fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:54 +0000
Subject: [PATCH 26/81] fix: quality control of one day applies to that day
 also when stations are held out

---
 src/eustace/preprocess/fileio/insitu_land.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eustace/preprocess/fileio/insitu_land.py b/src/eustace/preprocess/fileio/insitu_land.py
index 7e03201..e930eea 100644
--- a/src/eustace/preprocess/fileio/insitu_land.py
+++ b/src/eustace/preprocess/fileio/insitu_land.py
@@ -146,9 +146,9 @@ class ObservationSourceInsituLand(ObservationSource):
             measurement.mask = numpy.logical_or(measurement.mask, self.identify_validation_stations())
 
             # the mask is updated so True areas also represent areas where 
-            # qc flags have failed checks  
-            if qc_mask:
-                qc_data_mask = numpy.ma.masked_not_equal(qc_var, 0)
+            # qc flags have failed checks (done above already for a single day)
+            if qc_mask and self.daynumber is None:
+                qc_data_mask = numpy.ma.masked_not_equal(qc_var[:], 0)
                 measurement.mask = numpy.logical_or(
                                    measurement.mask, qc_data_mask)
                                    
-- 
2.43.0


From aa6bbbba85dafbb965243ff6a83f626cc0cd2ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:54 +0000
Subject: [PATCH 27/81] fix: the C++ reader refuses files which do not exist or
 are too short for a header

---
 src/cpp/eustace/analysis/fileio/rawbinary.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpp/eustace/analysis/fileio/rawbinary.cpp b/src/cpp/eustace/analysis/fileio/rawbinary.cpp
index 0e27498..1f7cdac 100644
--- a/src/cpp/eustace/analysis/fileio/rawbinary.cpp
+++ b/src/cpp/eustace/analysis/fileio/rawbinary.cpp
@@ -17,8 +17,8 @@ namespace EUSTACE
     char code_id[16];
     inputstream.read(code_id, sizeof(code_id));
 
-    // check format ID matches
-    if (strncmp(file_format_id, FormatID(), 16) != 0)
+    // check that header could be read and format ID matches
+    if (!inputstream || strncmp(file_format_id, FormatID(), 16) != 0)
       throw FormatExceptionBadHeader();
   }
     
-- 
2.43.0


From 1b36e1bc7f2cd05f283148ba424ead34e385c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:11 +0000
Subject: [PATCH 28/81] fix: the C++ input manager refuses observations and
 pointers of another location table

---
 src/cpp/eustace/analysis/fileio/rawbinary.h |  4 ++++
 src/cpp/eustace/analysis/inputmanager.cpp   | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/cpp/eustace/analysis/fileio/rawbinary.h b/src/cpp/eustace/analysis/fileio/rawbinary.h
index 3a2dcdf..c83b96f 100644
--- a/src/cpp/eustace/analysis/fileio/rawbinary.h
+++ b/src/cpp/eustace/analysis/fileio/rawbinary.h
@@ -24,6 +24,10 @@ namespace EUSTACE
   {
   };
 
+  class FormatExceptionLocationMismatch : public FormatException
+  {
+  };
+
   class RawBinaryReader
   {
   public:
diff --git a/src/cpp/eustace/analysis/inputmanager.cpp b/src/cpp/eustace/analysis/inputmanager.cpp
index e2ccfe9..8f3a8a3 100644
--- a/src/cpp/eustace/analysis/inputmanager.cpp
+++ b/src/cpp/eustace/analysis/inputmanager.cpp
@@ -21,6 +21,13 @@ namespace EUSTACE
     "Tmean"
   };
 
+  // Data referring to locations can only be used with the lookup table having the same identifier
+  static void CheckSameLocations(const LocationLookupUUID& a, const LocationLookupUUID& b)
+  {
+    if (memcmp(a.Bytes(), b.Bytes(), LocationLookupUUID::sizebytes) != 0)
+      throw FormatExceptionLocationMismatch();
+  }
+
   AnalysisInputRetrieval::AnalysisInputRetrieval() :
     local_correlation_ranges(0),
     location_lookup(0)
@@ -204,6 +211,9 @@ namespace EUSTACE
     std::ifstream inputstream(pathname_observation.c_str(), std::ios::binary);
     reader.Read(retrieval.observations, inputstream);
     inputstream.close();
+
+    // Observations must refer to this location lookup
+    CheckSameLocations(retrieval.observations.LocationLookupID(), retrieval.location_lookup->ID());
   }
 
   void AnalysisInputManager::RetrieveLocations(AnalysisInputRetrievalCollection& collection, 
@@ -231,6 +241,11 @@ namespace EUSTACE
       std::string pathname_location_pointers;
       PathNameLocationPointers(pathname_location_pointers, source, observable);
       std::ifstream pointerstream(pathname_location_pointers.c_str(), std::ios::binary);
+      LocationLookupUUID pointers_uuid;
+      uint64_t pointers_location_count(0);
+      LocationPointersRawBinaryReader().ReadAndCheckExtendedHeader(pointers_uuid, pointers_location_count, pointerstream);
+      CheckSameLocations(pointers_uuid, location_lookup->ID());
+      pointerstream.seekg(0, std::ios::beg);
       LocationPointersRawBinaryReader().Read(pointer_records, pointerstream, location_id_subset);
     }
 
-- 
2.43.0


From f96856c2b9ec158e22348479dd8021440e1ff1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:34 +0000
Subject: [PATCH 29/81] fix: samples of delayed spatial components can be
 stored and read back

---
 .../advanced_standard/components/storage_files.py    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/storage_files.py b/src/eustace/analysis/advanced_standard/components/storage_files.py
index 265a0ec..2b3dbb3 100644
--- a/src/eustace/analysis/advanced_standard/components/storage_files.py
+++ b/src/eustace/analysis/advanced_standard/components/storage_files.py
@@ -311,13 +311,13 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
 
     def state_sample_write(self, sample, state_key):
 
-        if self.samplefiledictionary_write is None:
+        if self.sample_filedictionary_write is None:
             raise ValueError('no state write file specified')
 
-        if state_key not in self.samplefiledictionary_write:
+        if state_key not in self.sample_filedictionary_write:
             raise ValueError('time key mismatch')
 
-        writepickle(state, self.samplefiledictionary_write[state_key])
+        writepickle(sample, self.sample_filedictionary_write[state_key])
 
     def state_read(self, state_key):
         
@@ -341,12 +341,14 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
 
     def state_sample_read(self, state_key):
         
-        if self.samplefiledictionary_read is None:
+        if self.sample_filedictionary_read is None:
             return None
 
-        if state_key not in self.samplefiledictionary_read:
+        if state_key not in self.sample_filedictionary_read:
             return None #raise ValueError('time key mismatch')
 
+        return readpickle(self.sample_filedictionary_read[state_key])
+
     def measurement_write(self, measurement, measurement_key):
 
         if self.measurementfiledictionary_write is None:
-- 
2.43.0


From a2eea9c945027e56cc092f7eb6b9eecc2d9afeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:34 +0000
Subject: [PATCH 30/81] fix: samples and prior samples stored by file name
 pattern are written when writing and read when reading

---
 .../advanced_standard/components/storage_files.py  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/storage_files.py b/src/eustace/analysis/advanced_standard/components/storage_files.py
index 2b3dbb3..2779ee6 100644
--- a/src/eustace/analysis/advanced_standard/components/storage_files.py
+++ b/src/eustace/analysis/advanced_standard/components/storage_files.py
@@ -473,8 +473,8 @@ class DelayedSpatialComponentSolutionStorageFlexible_Files(SpaceTimeComponentSol
     def state_sample_read(self, sample_key):
         return self.file_read( self.sample_read_pattern, sample_key )
 
-    def prior_state_sample_read(self, sample, sample_key):
-        self.file_write(sample, self.prior_sample_read_pattern, sample_key)
+    def prior_state_sample_read(self, sample_key):
+        return self.file_read( self.prior_sample_read_pattern, sample_key )
 
     def measurement_read(self, measurement_key):
         return self.file_read(self.measurement_read_pattern, measurement_key)
@@ -494,14 +494,14 @@ class DelayedSpatialComponentSolutionStorageFlexible_Files(SpaceTimeComponentSol
     def partial_state_marginal_std_read(self, std_key):
         return self.state_marginal_std_read(std_key)
         
-    def partial_state_sample_write(self, sample_key):
-        return self.state_sample_write(sample_key)
+    def partial_state_sample_write(self, sample, sample_key):
+        return self.state_sample_write(sample, sample_key)
     
     def partial_state_sample_read(self, sample_key):
         return self.state_sample_read(sample_key)
         
-    def partial_state_prior_sample_write(self, sample_key):
-        return self.prior_state_sample_write(sample_key)
+    def partial_state_prior_sample_write(self, sample, sample_key):
+        return self.prior_state_sample_write(sample, sample_key)
     
     def partial_state_prior_sample_read(self, sample_key):
-        return self.prior_state_sample_write(sample_key)
+        return self.prior_state_sample_read(sample_key)
-- 
2.43.0


From fd5535c04d3e318e72d85d692ee69a0b5195331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:34 +0000
Subject: [PATCH 31/81] fix: the measurement file of batched storage can be
 read

---
 .../advanced_standard/components/storage_files_batch.py      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/storage_files_batch.py b/src/eustace/analysis/advanced_standard/components/storage_files_batch.py
index febd72f..b08fbf6 100644
--- a/src/eustace/analysis/advanced_standard/components/storage_files_batch.py
+++ b/src/eustace/analysis/advanced_standard/components/storage_files_batch.py
@@ -373,7 +373,10 @@ class SpaceTimeComponentSolutionStorageBatched_Files(SpaceTimeComponentSolutionS
         #if (time_index < 0) or (time_index >= len(self.measurementfilelist_read)):
             #raise ValueError('time index of range of measurement read list')
 
-        return readpickle(self.measurementfilename_read)
+        if len(self.measurementfilelist_read) != 1:
+            raise ValueError('only a single measurement file is supported')
+
+        return readpickle(self.measurementfilelist_read[0])
 
     def timeindices_read(self):
         raise NotImplementedError('Time indexing is not supported')
-- 
2.43.0


From afe42530637d03e95d9828b2b34687a6ac36c0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:05 +0000
Subject: [PATCH 32/81] fix: merging measurement updates leaves the stored
 updates as they are

---
 .../analysis/advanced_standard/components/spacetime.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index 8344733..46010ff 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -1,6 +1,7 @@
 """A space-time component has state parameters which couple space and time.
    This is used for the large-scale and climatology analysis components."""
 
+import copy
 import numpy
 
 from eustace.analysis.advanced_standard.components.component import Component
@@ -249,7 +250,8 @@ class SpaceTimeComponentSolution(ComponentSolution):
             update = self.solutionstorage.measurement_read(time_index)
 
             if merged_updates is None:
-                merged_updates = update
+                # Start from a copy so that the stored update is left as it is
+                merged_updates = copy.deepcopy(update)
             else:
                 merged_updates.append_measurement_update(update)
 
-- 
2.43.0


From 777957beafd0438ae3fbe137288a25b578f4ec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:05 +0000
Subject: [PATCH 33/81] fix: times without observations do not prevent the
 solution of components spanning time

---
 src/eustace/analysis/advanced_standard/analysissystem.py | 7 +++++++
 .../analysis/advanced_standard/components/spacetime.py   | 9 +++++++--
 .../advanced_standard/components/spatialdelayed.py       | 4 ++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/analysissystem.py b/src/eustace/analysis/advanced_standard/analysissystem.py
index 6476cca..a897996 100644
--- a/src/eustace/analysis/advanced_standard/analysissystem.py
+++ b/src/eustace/analysis/advanced_standard/analysissystem.py
@@ -111,6 +111,10 @@ class AnalysisSystem(object):
                 # Process these observations
                 component_solution.process_observations(inputs, subtract_offset)
 
+        # Measurements belong to this time even if there were no observations
+        if isinstance(component, SpaceTimeComponent) and component_solution.measurement_time_index is None:
+            component_solution.measurement_time_index = time_index
+
         # Complete this time step
         component_solution.update_time_step()
 
@@ -181,6 +185,9 @@ class AnalysisSystem(object):
                     print key, value
                 
         if isinstance(component, SpaceTimeComponent):
+            # Measurements belong to the last time even if it had no observations
+            if component_solution.measurement_time_index is None:
+                component_solution.measurement_time_index = time_index
             # Space time components update for all times after processing all observations
             component_solution.update_time_step()
 
diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index 46010ff..f9b02c4 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -183,8 +183,9 @@ class SpaceTimeComponentSolution(ComponentSolution):
                 # Retrieve from cache
                 update = self.solutionstorage.measurement_read(time_index)
 
-                # Append to system
-                spacetimesystem.append_measurement_update(update)
+                # Append to system (unless there were no observations at that time)
+                if update is not None:
+                    spacetimesystem.append_measurement_update(update)
             
             # Report to user
             print 'Post-posterior increment: memory {0}MB\n'.format(memory_usage_megabytes())
@@ -249,6 +250,10 @@ class SpaceTimeComponentSolution(ComponentSolution):
             # Retrieve from cache
             update = self.solutionstorage.measurement_read(time_index)
 
+            if update is None:
+                # No observations at that time
+                continue
+
             if merged_updates is None:
                 # Start from a copy so that the stored update is left as it is
                 merged_updates = copy.deepcopy(update)
diff --git a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
index 18512ab..c65eda1 100644
--- a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
+++ b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
@@ -126,6 +126,10 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
             # Retrieve from cache
             update = self.solutionstorage.measurement_read(time_index)
 
+            # Nothing to solve if there were no observations at that time
+            if update is None:
+                continue
+
             # Append to system
             spacetimesystem.append_measurement_update(update)
 
-- 
2.43.0


From fabad57e03dfa0d0139a7cface0258dd324631f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:05 +0000
Subject: [PATCH 34/81] fix: delayed spatial components keep the measurements
 of a batch of times apart

---
 src/eustace/analysis/advanced_standard/analysissystem.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/analysissystem.py b/src/eustace/analysis/advanced_standard/analysissystem.py
index a897996..2753462 100644
--- a/src/eustace/analysis/advanced_standard/analysissystem.py
+++ b/src/eustace/analysis/advanced_standard/analysissystem.py
@@ -7,6 +7,7 @@ import sys
 
 from eustace.analysis.advanced_standard.components.spatial import SpatialComponent
 from eustace.analysis.advanced_standard.components.spacetime import SpaceTimeComponent
+from eustace.analysis.advanced_standard.components.spatialdelayed import DelayedSpatialComponent
 
 from eustace.analysis.advanced_standard.fileio.output_structure_rectilinear import Regridder
 
@@ -177,6 +178,12 @@ class AnalysisSystem(object):
                     # Process these observations
                     component_solution.process_observations(inputs, subtract_offset)
 
+            if isinstance(component, DelayedSpatialComponent):
+                # Delayed spatial components keep measurements of each substep apart
+                if component_solution.measurement_time_index is None:
+                    component_solution.measurement_time_index = time_index
+                component_solution.update_time_step()
+
             if isinstance(component, SpatialComponent):
                 # Spatial components update on each substep
                 component_solution.update_time_step()
@@ -184,7 +191,7 @@ class AnalysisSystem(object):
                 for key, value in component_solution.__dict__.iteritems():
                     print key, value
                 
-        if isinstance(component, SpaceTimeComponent):
+        if isinstance(component, SpaceTimeComponent) and not isinstance(component, DelayedSpatialComponent):
             # Measurements belong to the last time even if it had no observations
             if component_solution.measurement_time_index is None:
                 component_solution.measurement_time_index = time_index
-- 
2.43.0


From a8c9edc4aaf4252b77f86a07770f7717956b47dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:05 +0000
Subject: [PATCH 35/81] fix: solutions of nonlinear and of single-parameter
 components keep their shape

---
 .../analysis/advanced_standard/components/spacetime.py    | 6 +++++-
 .../advanced_standard/components/spatialdelayed.py        | 8 ++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index f9b02c4..b460ac2 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -208,7 +208,11 @@ class SpaceTimeComponentSolution(ComponentSolution):
             if self.element.isnonlinear():
 
                 # For nonlinear system this is an offset versus linearisation point
-                new_state_estimate = state_update + self.solutionstorage.state_read()
+                # (or there is none yet because there were no observations at all)
+                linearisation_point = self.solutionstorage.state_read()
+                if linearisation_point is None:
+                    return
+                new_state_estimate = numpy.ravel(state_update) + numpy.ravel(linearisation_point)
 
             else:
 
diff --git a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
index c65eda1..f119b40 100644
--- a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
+++ b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
@@ -137,12 +137,12 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
             solution = LinearSystemSolution_Cholesky(spacetimesystem, printstats=self.printstats)
 
             # Get expected value
-            state_update = numpy.squeeze(solution.maximum_a_posteriori())
+            state_update = numpy.ravel(solution.maximum_a_posteriori())
                     
             if self.element.isnonlinear():
 
                 # For nonlinear system this is an offset versus linearisation point
-                new_state_estimate = state_update + numpy.squeeze(self.solutionstorage.partial_state_read())
+                new_state_estimate = state_update + numpy.ravel(self.solutionstorage.partial_state_read(time_index))
 
             else:
 
@@ -154,10 +154,10 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
             
             if self.compute_uncertainties:
                 if self.method == 'APPROXIMATED':
-                    marginal_std = numpy.squeeze(solution.approximated_marginal_std())
+                    marginal_std = numpy.ravel(solution.approximated_marginal_std())
                     self.solutionstorage.partial_state_marginal_std_write(marginal_std, time_index)
                 elif self.method == 'EXACT':
-                    marginal_std = numpy.squeeze(solution.marginal_std())
+                    marginal_std = numpy.ravel(solution.marginal_std())
                     self.solutionstorage.partial_state_marginal_std_write(marginal_std, time_index)
                     
             if self.compute_sample:
-- 
2.43.0


From 157530436a463a31c9e557fac415c1ff38168fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:26 +0000
Subject: [PATCH 36/81] fix: delayed spatial components draw and keep samples
 as asked

---
 .../advanced_standard/components/spatialdelayed.py        | 8 ++++----
 .../advanced_standard/components/storage_files.py         | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
index f119b40..f6556e1 100644
--- a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
+++ b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
@@ -29,7 +29,7 @@ class DelayedSpatialComponent(SpaceTimeComponent):
     
     def __init__(self, storage, solutionstorage, printstats=False, compute_uncertainties = False, method='EXACT', compute_sample=False, sample_size=1):
 
-        super(DelayedSpatialComponent, self).__init__(storage, solutionstorage, printstats = printstats, compute_uncertainties = compute_uncertainties, method=method)
+        super(DelayedSpatialComponent, self).__init__(storage, solutionstorage, printstats = printstats, compute_uncertainties = compute_uncertainties, method=method, compute_sample=compute_sample, sample_size=sample_size)
         
     def component_solution(self):
         
@@ -161,8 +161,8 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
                     self.solutionstorage.partial_state_marginal_std_write(marginal_std, time_index)
                     
             if self.compute_sample:
-                sample = numpy.squeeze(solution.random_sample(self.sample_size))
-                self.solutionstorage.state_sample_write(sample, time_index)
+                sample = solution.random_sample(self.sample_size)
+                self.solutionstorage.partial_state_sample_write(sample, time_index)
   
     def solution_observation_expected_value(self, observations):
 
@@ -206,7 +206,7 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
         time_index = observations.time_index()
 
         # Attempt to retrieve solution
-        state = self.solutionstorage.state_sample_read(time_index)
+        state = self.solutionstorage.partial_state_sample_read(time_index)
         
         # Return zeros if can't find it
         if state is None:
diff --git a/src/eustace/analysis/advanced_standard/components/storage_files.py b/src/eustace/analysis/advanced_standard/components/storage_files.py
index 2779ee6..d47ab06 100644
--- a/src/eustace/analysis/advanced_standard/components/storage_files.py
+++ b/src/eustace/analysis/advanced_standard/components/storage_files.py
@@ -289,6 +289,12 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
     def partial_state_marginal_std_read(self, time_index):
         return self.state_marginal_std_read(time_index)
 
+    def partial_state_sample_write(self, sample, time_index):
+        return self.state_sample_write(sample, time_index)
+
+    def partial_state_sample_read(self, time_index):
+        return self.state_sample_read(time_index)
+
     def state_write(self, state, state_key):
 
         if self.statefiledictionary_write is None:
-- 
2.43.0


From 28196db0a5deb40ad089492dd36e4cf932136d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:33 +0000
Subject: [PATCH 37/81] fix: parameters can be set when the last element of a
 combination has none

---
 .../advanced_standard/elements/combination.py | 534 +++++++++---------
 1 file changed, 267 insertions(+), 267 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/combination.py b/src/eustace/analysis/advanced_standard/elements/combination.py
index f61e442..bf32fc2 100644
--- a/src/eustace/analysis/advanced_standard/elements/combination.py
+++ b/src/eustace/analysis/advanced_standard/elements/combination.py
@@ -1,268 +1,268 @@
-"""Combination of elements."""
-
-from element import Element
-from element import ElementDesign
-from element import ElementPrior
-from element import Hyperparameters
-from element import SPARSEFORMAT
-import numpy
-import scipy
-
-class CombinationHyperparameters(Hyperparameters):
-    """Hyperparameter object built using hyperparameters from
-       multiple elements."""
-    
-    def __init__(self, elementparameters):
-        
-        super(CombinationHyperparameters, self).__init__()
-        self.elementparameters = elementparameters
-            
-    def get_array(self):
-        """Retrieve as 1D NumPy array."""
-        
-        vectors = [ parameters.get_array() for parameters in self.elementparameters ]
-        return numpy.hstack(vectors)
-        
-    def set_array(self, values):
-        """Set from NumPy array."""
-        
-        # List with one range for each element        
-        elementranges = self.get_element_ranges()
-        
-        # Total count is one greater than last index of last element
-        totalcount = elementranges[-1][-1] + 1
-
-        # Check total count matches number of values being set
-        if values.shape != (totalcount,):
-            raise ValueError('wrong vector shape: expected {0} got {1}', (totalcount,), values.shape)
-
-        # Set values        
-        for index, parameters in enumerate(self.elementparameters):            
-            parameters.set_array(values[elementranges[index]])
-
-    def get_element_ranges(self):
-        """Retrieve list containing ranges for each element within vector of all parameters."""
-        
-        ranges = [ ]
-        startindex = 0
-        for parameters in self.elementparameters:            
-            count = parameters.get_array().shape[0]
-            nextstartindex = startindex + count
-            ranges.append(range(startindex, nextstartindex))
-            startindex = nextstartindex
-        return ranges
-       
-
-class CombinationElement(Element):
-    """A combination element comprises several individual analysis elements."""
-           
-    def __init__(self, combination):
-        """Initialise form list of component elements."""
-        
-        super(CombinationElement, self).__init__()
-        self.combination = combination
-
-    def isnonlinear(self):
-        """Will return True if any individual element represents a nonlinear system, False otherwise."""
-
-        return any([ element.isnonlinear() for element in self.combination ])
-
-    def element_design(self, observationstructure):
-
-        designlist = [ element.element_design(observationstructure) for element in self.combination ]
-        return CombinationDesign(designlist)
-
-    def element_prior(self, hyperparameters):
-        """
-        Return a combination prior.
-        """
-
-        priorlist = [ element.element_prior(hyperparameters.elementparameters[index]) for index, element in enumerate(self.combination) ]
-        return CombinationPrior(hyperparameters, priorlist)
-
-
-class CombinationDesign(ElementDesign):
-    """Build design matrices for a combination of elements."""
-
-        
-    def __init__(self, designlist):
-
-        self.designlist = designlist
-
-
-    def isnonlinear(self):
-        """Returns True if any element of the combination is nonlinear, false otherwise."""
-
-        return any([ design.isnonlinear() for design in self.designlist ])
-
-
-    def design_number_of_state_parameters(self):
-        """Number of state parameters.  For combination element this is the sum of state parameters from all sub-elements."""
-
-        return sum([ element_design.design_number_of_state_parameters() for element_design in self.designlist ])
-
-
-    def design_initial_state(self):
-        """Initial state. Uses initial substate information from nonlinear subdesigns where applicable."""
-
-        initialstate = None
-        
-        if self.isnonlinear():
-
-            # Initialise to zero
-            initialstate = numpy.zeros((self.design_number_of_state_parameters(),))
-
-            # Populate substates from element initial state values
-            state_startindex = 0
-            for subdesign in self.designlist:
-                state_count = subdesign.design_number_of_state_parameters()
-                state_nextstartindex = state_startindex + state_count
-                if subdesign.isnonlinear():
-                    initialstate[state_startindex:state_nextstartindex] = subdesign.design_initial_state()
-                state_startindex = state_nextstartindex
-        
-        return initialstate
-
-
-    def element_states(self, currentstate):
-        """List of vectors containing the subsets of state vector that correspond to each element."""
-
-        if currentstate is None:
-
-            # If no current state specified this implies it's a fully linear system 
-            element_state_list = [ None for element in self.designlist ]
-
-        else:
-
-            # We have a state specified - split it into element states
-            element_state_list = [ ]
-            state_startindex = 0
-            for element in self.designlist:
-
-                state_count = element.design_number_of_state_parameters()
-                state_nextstartindex = state_startindex + state_count
-                element_state = currentstate[state_startindex:state_nextstartindex]
-                element_state_list.append(element_state)
-                state_startindex = state_nextstartindex
-
-        return element_state_list
-
-    def design_function(self, currentstate, rectified=False):
-        """
-        Compute function f that maps model parameters to observation space,
-        at given model state.
-        """
-
-        states = self.element_states(currentstate)
-        vectorlist = [ element.design_function(states[elementindex], rectified) for elementindex, element in enumerate(self.designlist)  ]
-        result = numpy.zeros(vectorlist[0].shape)
-        for vector in vectorlist:
-            result += vector
-        return result
-
-
-    def design_jacobian(self, currentstate):
-        """
-        Compute jacobian matrix J = df / dx of the function f that maps model parameters to 
-        observation space, evaluated at given model state.
-        y = f(x) + error terms
-        """
-
-        states = self.element_states(currentstate)
-        matrixlist = [ element.design_jacobian(states[elementindex]) for elementindex, element in enumerate(self.designlist)  ]
-        return scipy.sparse.hstack(matrixlist, format=SPARSEFORMAT) 
-
-    def design_matrix(self):
-        """Return the joint design matrix for the combination of elements"""
-        
-        #return scipy.sparse.hstack( [design.design_matrix() for design in self.designlist], format=SPARSEFORMAT)
-        design_matrix_list = []
-        for design in self.designlist:
-            print design
-            design_matrix_list.append( design.design_matrix() )
-            
-        return scipy.sparse.hstack(design_matrix_list , format=SPARSEFORMAT)
-        
-
-class CombinationPrior(ElementPrior):
-    """Build prior precision matrices for a combination of elements."""
-
-    def __init__(self, hyperparameters, priorlist):
-        """Initialise for given design size and hyperparameters."""
-
-        self.hyperparameters = hyperparameters
-        self.priorlist = priorlist
-
-    def prior_number_of_state_parameters(self):
-        """Return number of state parameters represented by this prior."""
-
-        return sum([ prior.prior_number_of_state_parameters() for prior in self.priorlist ])
-
-    def prior_precision(self):
-        """Compute prior precision for given hyperparameters."""
-
-        # List of priors
-        precision_list = [ elementprior.prior_precision() for elementprior in self.priorlist ]
-
-        # Form block diagonal result
-        return scipy.sparse.block_diag(precision_list, format=SPARSEFORMAT)
-
-    def prior_precision_derivative(self, parameter_index):
-        """Compute prior precision partial derivatives at given hyperparameters."""
-
-        # Hyperparameter indices corresponding to each element
-        elementranges = self.hyperparameters.get_element_ranges()
-        
-        # List to buid
-        derivative_list = [ ]        
-        
-        # Zeros for everything except the specified range
-        for elementindex, elementrange in enumerate(elementranges):
-        
-            # The requested parameter will only apply to one element
-            if parameter_index in elementrange:
-
-                # Hyperparameters for this element
-                elementparameters = self.hyperparameters.elementparameters[elementindex]
-
-                # The index relative to this element
-                relativeindex = parameter_index - elementrange[0]
-                
-                # Get derivative
-                derivative = self.priorlist[elementindex].prior_precision_derivative(relativeindex)
-
-            else:
-                
-                # Zeros for elements not affected by the parameter
-                dimension = self.priorlist[elementindex].prior_number_of_state_parameters()
-                derivative = scipy.sparse.csc_matrix((dimension,dimension))
-                
-            derivative_list.append(derivative)
-
-
-        # Block diagonal result
-        return scipy.sparse.block_diag(derivative_list, format=SPARSEFORMAT)
-
-
-    def element_states(self, currentstate):
-        """List of vectors containing the subsets of state vector that correspond to each element."""
-
-        if currentstate is None:
-
-            # If no current state specified this implies it's a fully linear system 
-            element_state_list = [ None for prior in self.priorlist ]
-
-        else:
-
-            # We have a state specified - split it into element states
-            element_state_list = [ ]
-            state_startindex = 0
-            for prior in self.priorlist:
-
-                state_count = prior.prior_number_of_state_parameters()
-                state_nextstartindex = state_startindex + state_count
-                element_state = currentstate[state_startindex:state_nextstartindex]
-                element_state_list.append(element_state)
-                state_startindex = state_nextstartindex
-
+"""Combination of elements."""
+
+from element import Element
+from element import ElementDesign
+from element import ElementPrior
+from element import Hyperparameters
+from element import SPARSEFORMAT
+import numpy
+import scipy
+
+class CombinationHyperparameters(Hyperparameters):
+    """Hyperparameter object built using hyperparameters from
+       multiple elements."""
+    
+    def __init__(self, elementparameters):
+        
+        super(CombinationHyperparameters, self).__init__()
+        self.elementparameters = elementparameters
+            
+    def get_array(self):
+        """Retrieve as 1D NumPy array."""
+        
+        vectors = [ parameters.get_array() for parameters in self.elementparameters ]
+        return numpy.hstack(vectors)
+        
+    def set_array(self, values):
+        """Set from NumPy array."""
+        
+        # List with one range for each element        
+        elementranges = self.get_element_ranges()
+        
+        # Total count over all elements (some may have no parameters)
+        totalcount = sum([ len(elementrange) for elementrange in elementranges ])
+
+        # Check total count matches number of values being set
+        if values.shape != (totalcount,):
+            raise ValueError('wrong vector shape: expected {0} got {1}', (totalcount,), values.shape)
+
+        # Set values        
+        for index, parameters in enumerate(self.elementparameters):            
+            parameters.set_array(values[elementranges[index]])
+
+    def get_element_ranges(self):
+        """Retrieve list containing ranges for each element within vector of all parameters."""
+        
+        ranges = [ ]
+        startindex = 0
+        for parameters in self.elementparameters:            
+            count = parameters.get_array().shape[0]
+            nextstartindex = startindex + count
+            ranges.append(range(startindex, nextstartindex))
+            startindex = nextstartindex
+        return ranges
+       
+
+class CombinationElement(Element):
+    """A combination element comprises several individual analysis elements."""
+           
+    def __init__(self, combination):
+        """Initialise form list of component elements."""
+        
+        super(CombinationElement, self).__init__()
+        self.combination = combination
+
+    def isnonlinear(self):
+        """Will return True if any individual element represents a nonlinear system, False otherwise."""
+
+        return any([ element.isnonlinear() for element in self.combination ])
+
+    def element_design(self, observationstructure):
+
+        designlist = [ element.element_design(observationstructure) for element in self.combination ]
+        return CombinationDesign(designlist)
+
+    def element_prior(self, hyperparameters):
+        """
+        Return a combination prior.
+        """
+
+        priorlist = [ element.element_prior(hyperparameters.elementparameters[index]) for index, element in enumerate(self.combination) ]
+        return CombinationPrior(hyperparameters, priorlist)
+
+
+class CombinationDesign(ElementDesign):
+    """Build design matrices for a combination of elements."""
+
+        
+    def __init__(self, designlist):
+
+        self.designlist = designlist
+
+
+    def isnonlinear(self):
+        """Returns True if any element of the combination is nonlinear, false otherwise."""
+
+        return any([ design.isnonlinear() for design in self.designlist ])
+
+
+    def design_number_of_state_parameters(self):
+        """Number of state parameters.  For combination element this is the sum of state parameters from all sub-elements."""
+
+        return sum([ element_design.design_number_of_state_parameters() for element_design in self.designlist ])
+
+
+    def design_initial_state(self):
+        """Initial state. Uses initial substate information from nonlinear subdesigns where applicable."""
+
+        initialstate = None
+        
+        if self.isnonlinear():
+
+            # Initialise to zero
+            initialstate = numpy.zeros((self.design_number_of_state_parameters(),))
+
+            # Populate substates from element initial state values
+            state_startindex = 0
+            for subdesign in self.designlist:
+                state_count = subdesign.design_number_of_state_parameters()
+                state_nextstartindex = state_startindex + state_count
+                if subdesign.isnonlinear():
+                    initialstate[state_startindex:state_nextstartindex] = subdesign.design_initial_state()
+                state_startindex = state_nextstartindex
+        
+        return initialstate
+
+
+    def element_states(self, currentstate):
+        """List of vectors containing the subsets of state vector that correspond to each element."""
+
+        if currentstate is None:
+
+            # If no current state specified this implies it's a fully linear system 
+            element_state_list = [ None for element in self.designlist ]
+
+        else:
+
+            # We have a state specified - split it into element states
+            element_state_list = [ ]
+            state_startindex = 0
+            for element in self.designlist:
+
+                state_count = element.design_number_of_state_parameters()
+                state_nextstartindex = state_startindex + state_count
+                element_state = currentstate[state_startindex:state_nextstartindex]
+                element_state_list.append(element_state)
+                state_startindex = state_nextstartindex
+
+        return element_state_list
+
+    def design_function(self, currentstate, rectified=False):
+        """
+        Compute function f that maps model parameters to observation space,
+        at given model state.
+        """
+
+        states = self.element_states(currentstate)
+        vectorlist = [ element.design_function(states[elementindex], rectified) for elementindex, element in enumerate(self.designlist)  ]
+        result = numpy.zeros(vectorlist[0].shape)
+        for vector in vectorlist:
+            result += vector
+        return result
+
+
+    def design_jacobian(self, currentstate):
+        """
+        Compute jacobian matrix J = df / dx of the function f that maps model parameters to 
+        observation space, evaluated at given model state.
+        y = f(x) + error terms
+        """
+
+        states = self.element_states(currentstate)
+        matrixlist = [ element.design_jacobian(states[elementindex]) for elementindex, element in enumerate(self.designlist)  ]
+        return scipy.sparse.hstack(matrixlist, format=SPARSEFORMAT) 
+
+    def design_matrix(self):
+        """Return the joint design matrix for the combination of elements"""
+        
+        #return scipy.sparse.hstack( [design.design_matrix() for design in self.designlist], format=SPARSEFORMAT)
+        design_matrix_list = []
+        for design in self.designlist:
+            print design
+            design_matrix_list.append( design.design_matrix() )
+            
+        return scipy.sparse.hstack(design_matrix_list , format=SPARSEFORMAT)
+        
+
+class CombinationPrior(ElementPrior):
+    """Build prior precision matrices for a combination of elements."""
+
+    def __init__(self, hyperparameters, priorlist):
+        """Initialise for given design size and hyperparameters."""
+
+        self.hyperparameters = hyperparameters
+        self.priorlist = priorlist
+
+    def prior_number_of_state_parameters(self):
+        """Return number of state parameters represented by this prior."""
+
+        return sum([ prior.prior_number_of_state_parameters() for prior in self.priorlist ])
+
+    def prior_precision(self):
+        """Compute prior precision for given hyperparameters."""
+
+        # List of priors
+        precision_list = [ elementprior.prior_precision() for elementprior in self.priorlist ]
+
+        # Form block diagonal result
+        return scipy.sparse.block_diag(precision_list, format=SPARSEFORMAT)
+
+    def prior_precision_derivative(self, parameter_index):
+        """Compute prior precision partial derivatives at given hyperparameters."""
+
+        # Hyperparameter indices corresponding to each element
+        elementranges = self.hyperparameters.get_element_ranges()
+        
+        # List to buid
+        derivative_list = [ ]        
+        
+        # Zeros for everything except the specified range
+        for elementindex, elementrange in enumerate(elementranges):
+        
+            # The requested parameter will only apply to one element
+            if parameter_index in elementrange:
+
+                # Hyperparameters for this element
+                elementparameters = self.hyperparameters.elementparameters[elementindex]
+
+                # The index relative to this element
+                relativeindex = parameter_index - elementrange[0]
+                
+                # Get derivative
+                derivative = self.priorlist[elementindex].prior_precision_derivative(relativeindex)
+
+            else:
+                
+                # Zeros for elements not affected by the parameter
+                dimension = self.priorlist[elementindex].prior_number_of_state_parameters()
+                derivative = scipy.sparse.csc_matrix((dimension,dimension))
+                
+            derivative_list.append(derivative)
+
+
+        # Block diagonal result
+        return scipy.sparse.block_diag(derivative_list, format=SPARSEFORMAT)
+
+
+    def element_states(self, currentstate):
+        """List of vectors containing the subsets of state vector that correspond to each element."""
+
+        if currentstate is None:
+
+            # If no current state specified this implies it's a fully linear system 
+            element_state_list = [ None for prior in self.priorlist ]
+
+        else:
+
+            # We have a state specified - split it into element states
+            element_state_list = [ ]
+            state_startindex = 0
+            for prior in self.priorlist:
+
+                state_count = prior.prior_number_of_state_parameters()
+                state_nextstartindex = state_startindex + state_count
+                element_state = currentstate[state_startindex:state_nextstartindex]
+                element_state_list.append(element_state)
+                state_startindex = state_nextstartindex
+
         return element_state_list
\ No newline at end of file
-- 
2.43.0


From f976bd688849e53081d34276f89bf5fcb8809893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:33 +0000
Subject: [PATCH 38/81] fix: the factor element can be part of a combination

---
 src/eustace/analysis/advanced_standard/elements/factor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/factor.py b/src/eustace/analysis/advanced_standard/elements/factor.py
index 38bd150..7be9140 100644
--- a/src/eustace/analysis/advanced_standard/elements/factor.py
+++ b/src/eustace/analysis/advanced_standard/elements/factor.py
@@ -58,10 +58,12 @@ class SpaceTimeFactorDesign(ElementNonlinearDesign, SpaceTimeSPDEDesign):
         # Stack 'em up
         return scipy.sparse.hstack([ jacobian_space, jacobian_time ], format=SPARSEFORMAT)
 
-    def design_function(self, currentstate):
+    def design_function(self, currentstate, rectified=False):
 
-        v_space = self.space_A.dot(currentstate[:self.space_A.shape[1]])
-        v_time = self.time_A.dot(currentstate[self.space_A.shape[1]:])
+        space_A = numpy.abs(self.space_A) if rectified else self.space_A
+        time_A = numpy.abs(self.time_A) if rectified else self.time_A
+        v_space = space_A.dot(currentstate[:self.space_A.shape[1]])
+        v_time = time_A.dot(currentstate[self.space_A.shape[1]:])
         return v_space * v_time
 
 class SpaceTimeFactorPrior(SpaceTimeSPDEPrior):
-- 
2.43.0


From 98fe075bb22b0326304fe31c88a46a6e548dbf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:33 +0000
Subject: [PATCH 39/81] fix: general parameters are given as one vector and can
 be loaded again

---
 .../analysis/advanced_standard/elements/local_view.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/local_view.py b/src/eustace/analysis/advanced_standard/elements/local_view.py
index 887e39e..ca86a11 100644
--- a/src/eustace/analysis/advanced_standard/elements/local_view.py
+++ b/src/eustace/analysis/advanced_standard/elements/local_view.py
@@ -196,7 +196,7 @@ class GeneralHyperparameters(Hyperparameters):
         """Retrieve as 1D NumPy array."""
 
         valueslist = [ self.__dict__[key] for key in sorted(self.__dict__)]
-        return numpy.array(valueslist)
+        return numpy.hstack(valueslist) if valueslist else numpy.zeros((0,))
         
     def set_array(self, values):
         """Set from NumPy array."""
@@ -219,9 +219,10 @@ class GeneralHyperparameters(Hyperparameters):
         
         parameter_dict = numpy.load(filename)
         
-        return ExpandedHyperparameters(**parameter_dict)
+        return GeneralHyperparameters(**parameter_dict)
         
     def values_to_npy_savefile(self, filename):
         """Write Q_parameters to npy save file"""
         
-        numpy.save(filename, self.__dict__)        
\ No newline at end of file
+        with open(filename, 'wb') as savefile:
+            numpy.savez(savefile, **self.__dict__)
-- 
2.43.0


From 3aaa1ce78adc8660b0dfbf6ecb586e83caffcd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:59 +0000
Subject: [PATCH 40/81] fix: every missing output is taken from the lists of
 outputs to merge

---
 src/eustace/outputformats/filesmerger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 7fee3bc..0749d64 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -20,7 +20,7 @@ def clean_list_of_outputs_to_merge(outputs_main, outputs_ancillary,number_of_sou
     original_number_of_outputs = len(outputs_main)
 
     indexes_to_remove = []
-    for index, elements in enumerate(zip(outputs_main,outputs_ancillary)):
+    for index, elements in enumerate(list(zip(outputs_main,outputs_ancillary))):
         print(elements)
         if elements[0] is not None and os.path.isfile(elements[0]):
 	    number_of_sources += 1
-- 
2.43.0


From 0f1839e0b8a41afcbe0a4106d9d8dc4b67d1f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:59 +0000
Subject: [PATCH 41/81] fix: a source with only its primary or only its
 ancillary file is refused also when another lacks the other one

---
 src/eustace/outputformats/filesmerger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 0749d64..19722a3 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -29,7 +29,11 @@ def clean_list_of_outputs_to_merge(outputs_main, outputs_ancillary,number_of_sou
 	    indexes_to_remove.append(index)
 
 	if elements[1] is None or not(os.path.isfile(elements[1])):
+	    if index not in indexes_to_remove:
+	        raise ValueError('Number of primary and ancillary files must be the same')
 	    outputs_ancillary.remove(elements[1])
+	elif index in indexes_to_remove:
+	    raise ValueError('Number of primary and ancillary files must be the same')
 
     print(outputs_main, outputs_ancillary)
 
-- 
2.43.0


From dda7a84d66307dcbc2c1814734f96b6af3ce40a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:59 +0000
Subject: [PATCH 42/81] fix: outputs without missing values can be merged

---
 src/eustace/outputformats/filesmerger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 19722a3..945381d 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -315,7 +315,7 @@ class FilesMerger(object):
     masked_array_field = handle.variables[name][...]
     masked_array_field.data[masked_array_field.data==masked_array_field.fill_value]=new_fill_value
 
-    return masked_array_field.data,masked_array_field.mask
+    return masked_array_field.data,numpy.ma.getmaskarray(masked_array_field)
 
   @staticmethod
   def build_triangular_correlation_matrix(number_of_files,sub_list_of_correlation_indexes):
-- 
2.43.0


From e390f803df5b5a38649336ecd01baac9d43a3206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:59 +0000
Subject: [PATCH 43/81] fix: merged outputs stay in the folder of their sources
 when its name contains the source label

---
 src/eustace/outputformats/filesmerger.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 945381d..9a50fb0 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -134,8 +134,8 @@ class FilesMerger(object):
 
       # Output files names
       source_label = os.path.basename(outputs_primary[0]).split('_')[4]
-      output_main = outputs_primary[0].replace('_'+source_label,'')
-      output_ancillary = outputs_ancillary[0].replace('_'+source_label,'')
+      output_main = self.remove_source_label(outputs_primary[0],source_label)
+      output_ancillary = self.remove_source_label(outputs_ancillary[0],source_label)
 
       self.list_of_merged_main_outputs.append(output_main)
       self.list_of_merged_ancillary_outputs.append(output_ancillary)
@@ -158,6 +158,12 @@ class FilesMerger(object):
       for filename in outputs_primary+outputs_ancillary:
 	os.remove(filename) 
 
+  @staticmethod
+  def remove_source_label(filename,source_label):
+    """Name of the merged file: without the source label, in the same folder"""
+
+    return os.path.join(os.path.dirname(filename),os.path.basename(filename).replace('_'+source_label,''))
+
   def update_single_file(self,outputs_primary,outputs_ancillary):
     """Updates output filename to adhere SATSTACE convention and adds information about original satellite source into the 'comment' attribute. It is called when just only one output file is available"""  
 
@@ -167,7 +173,7 @@ class FilesMerger(object):
       datafile = netCDF4.Dataset(i,'r+')
       datafile.setncattr('comment',self.comment_prefix+source_label+' retrievals.')
       datafile.close()
-      new_name = i.replace('_'+source_label,'')
+      new_name = self.remove_source_label(i,source_label)
       self.list_of_merged_main_outputs.append(new_name)
       os.rename(i,new_name)
 
@@ -175,7 +181,7 @@ class FilesMerger(object):
       datafile = netCDF4.Dataset(i,'r+')
       datafile.setncattr('comment',self.comment_prefix+source_label+' retrievals.')
       datafile.close()
-      new_name = i.replace('_'+source_label,'')
+      new_name = self.remove_source_label(i,source_label)
       self.list_of_merged_ancillary_outputs.append(new_name)
       os.rename(i,new_name)
 
-- 
2.43.0


From dbe2a373e3f66a80dcbbd08ae7784693e069f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:21 +0000
Subject: [PATCH 44/81] fix: the stages of the optimisation wait for each other
 and for the given conditions

---
 src/roses/fullstace/advanced_standard/lsf_submission.py     | 6 +++---
 .../fullstace/advanced_standard/lsf_submission_group.py     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/roses/fullstace/advanced_standard/lsf_submission.py b/src/roses/fullstace/advanced_standard/lsf_submission.py
index 46113a6..db83fa8 100644
--- a/src/roses/fullstace/advanced_standard/lsf_submission.py
+++ b/src/roses/fullstace/advanced_standard/lsf_submission.py
@@ -264,15 +264,15 @@ def eustace_optimisation(iteration_number=None,
         iter_string = '_'+str(iteration_number)
 
     # split the local component into spatial model and bias components so that the bias sub-component can be used later
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'split_local_component'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'split_local_component'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # generate json files listing inputloader information for each time step for use outside of EUMOPPS
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_create'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_create'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # consolidate the inputloader information in json files into a single master json file
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_merge'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_merge'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # submit the optimisation tasks outside of EUMOPPS
diff --git a/src/roses/fullstace/advanced_standard/lsf_submission_group.py b/src/roses/fullstace/advanced_standard/lsf_submission_group.py
index e739619..6abdea7 100644
--- a/src/roses/fullstace/advanced_standard/lsf_submission_group.py
+++ b/src/roses/fullstace/advanced_standard/lsf_submission_group.py
@@ -374,15 +374,15 @@ def eustace_optimisation(iteration_number=None,
         iter_string = '_'+str(iteration_number)
 
     # split the local component into spatial model and bias components so that the bias sub-component can be used later
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'split_local_component'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'split_local_component'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # generate json files listing inputloader information for each time step for use outside of EUMOPPS
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_create'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_create'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # consolidate the inputloader information in json files into a single master json file
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_merge'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_merge'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # submit the optimisation tasks outside of EUMOPPS
-- 
2.43.0


From bfc24629e7c94410ef8a2267e0c02bb4e7db9705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:21 +0000
Subject: [PATCH 45/81] fix: a grouped job fails when any of its tasks fails

---
 .../fullstace/advanced_standard/lsf_commandrun_group.sh    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/roses/fullstace/advanced_standard/lsf_commandrun_group.sh b/src/roses/fullstace/advanced_standard/lsf_commandrun_group.sh
index 2b99442..557bd48 100644
--- a/src/roses/fullstace/advanced_standard/lsf_commandrun_group.sh
+++ b/src/roses/fullstace/advanced_standard/lsf_commandrun_group.sh
@@ -19,6 +19,9 @@ mkdir -p ${SUPEROUTDIR}
 OUTDIR=/work/scratch/$USER/lsf/${EUMOPPS_MODULENAME}/$EUMOPPS_BATCHNUMBER/$EUMOPPS_JOBINDEX
 mkdir -p ${OUTDIR}
 
+# Fail if any of the tasks fails, so that jobs waiting for this one do not start
+EUMOPPS_STATUS=0
+
 for EUMOPPS_TASKINDEX in `seq 0 $((EUMOPPS_NTASKS - 1))` ;
 do
 
@@ -33,6 +36,8 @@ do
     OUTFILE=${OUTDIR}/${EUMOPPS_TASKINDEX}.out
     ERRFILE=${OUTDIR}/${EUMOPPS_TASKINDEX}.err
 
-    python -m eumopps.catalogue.commandrun ${EUMOPPS_CATALOGUE} ${EUMOPPS_MODULENAME} $EUMOPPS_INNERINDEX --use_batch_size $EUMOPPS_BATCHSIZE --batch $EUMOPPS_BATCHNUMBER --allow_unversioned_code 2> $ERRFILE > $OUTFILE
+    python -m eumopps.catalogue.commandrun ${EUMOPPS_CATALOGUE} ${EUMOPPS_MODULENAME} $EUMOPPS_INNERINDEX --use_batch_size $EUMOPPS_BATCHSIZE --batch $EUMOPPS_BATCHNUMBER --allow_unversioned_code 2> $ERRFILE > $OUTFILE || EUMOPPS_STATUS=1
 
 done
+
+exit $EUMOPPS_STATUS
-- 
2.43.0


From ca4056b41dc3c2420bdbbdc8f9e4530ae66ec24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:21 +0000
Subject: [PATCH 46/81] fix: a missing stage or failed submission ends the
 chain of submissions

---
 src/roses/fullstace/advanced_standard/runlsf.sh      | 12 ++++++++++++
 .../fullstace/advanced_standard/runlsf_solver.sh     | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/roses/fullstace/advanced_standard/runlsf.sh b/src/roses/fullstace/advanced_standard/runlsf.sh
index 2270e1f..c1a5519 100644
--- a/src/roses/fullstace/advanced_standard/runlsf.sh
+++ b/src/roses/fullstace/advanced_standard/runlsf.sh
@@ -30,6 +30,12 @@ export EUMOPPS_BATCHSIZE=366
 # Get total count for this module name
 export EUMOPPS_COMMANDCOUNT=`python -m eumopps.catalogue.commandcount ${EUMOPPS_CATALOGUE} ${EUMOPPS_MODULENAME}`
 
+# Stop here if there is nothing to run (otherwise whatever comes next would not wait)
+if [ "${EUMOPPS_COMMANDCOUNT:-0}" -eq 0 ]; then
+    echo "ERROR: ${EUMOPPS_MODULENAME} not found in catalogue" >&2
+    exit 1
+fi
+
 # Turn it into a batch size
 export EUMOPPS_BATCHCOUNT=$((EUMOPPS_COMMANDCOUNT / EUMOPPS_BATCHSIZE))
 if [ $((EUMOPPS_COMMANDCOUNT % EUMOPPS_BATCHSIZE)) -gt $((0)) ]; then
@@ -69,6 +75,12 @@ do
     #
     export JOBID=`echo $JOBSTRING | sed -r "s/Job <([0-9]*)>.*/\1/"`
 
+    # Stop here if it was not submitted
+    if ! [[ "${JOBID}" =~ ^[0-9]+$ ]]; then
+        echo "ERROR: submission of ${BATCHARRAY} failed" >&2
+        exit 1
+    fi
+
     # Build finished condition for whole batch, for example
     # "done(1239736) && done(1239737) && done(1239738)"
     if [ -n "${LSF_FINISHED_CONDITION}" ]; then
diff --git a/src/roses/fullstace/advanced_standard/runlsf_solver.sh b/src/roses/fullstace/advanced_standard/runlsf_solver.sh
index 6ce593c..da03221 100644
--- a/src/roses/fullstace/advanced_standard/runlsf_solver.sh
+++ b/src/roses/fullstace/advanced_standard/runlsf_solver.sh
@@ -30,6 +30,12 @@ export EUMOPPS_BATCHSIZE=1
 # Get batch count for this module name
 export EUMOPPS_BATCHCOUNT=`python -m eumopps.catalogue.commandcount ${EUMOPPS_CATALOGUE} ${EUMOPPS_MODULENAME} --batchsize ${EUMOPPS_BATCHSIZE}`
 
+# Stop here if there is nothing to run (otherwise whatever comes next would not wait)
+if [ "${EUMOPPS_BATCHCOUNT:-0}" -eq 0 ]; then
+    echo "ERROR: ${EUMOPPS_MODULENAME} not found in catalogue" >&2
+    exit 1
+fi
+
 # Tell the user what's going to happen
 echo "Running: \"$LSF_PATHNAME\" for EUMOPPS module \"$EUMOPPS_MODULENAME\" with $EUMOPPS_BATCHCOUNT batches of $EUMOPPS_BATCHSIZE"
 
@@ -59,6 +65,12 @@ do
     #
     export JOBID=`echo $JOBSTRING | sed -r "s/Job <([0-9]*)>.*/\1/"`
 
+    # Stop here if it was not submitted
+    if ! [[ "${JOBID}" =~ ^[0-9]+$ ]]; then
+        echo "ERROR: submission of ${BATCHARRAY} failed" >&2
+        exit 1
+    fi
+
     # Build finished condition for whole batch, for example
     # "done(1239736) && done(1239737) && done(1239738)"
     if [ -n "${LSF_FINISHED_CONDITION}" ]; then
-- 
2.43.0


From f27c6f3a601b71fe44a60580c2cadae347d32099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:13 +0000
Subject: [PATCH 47/81] fix: satellite positions just below the start of a grid
 axis are not put in its first cell

---
 src/eustace/satgrid/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/satgrid/grid.py b/src/eustace/satgrid/grid.py
index 399ea7a..9c1995e 100644
--- a/src/eustace/satgrid/grid.py
+++ b/src/eustace/satgrid/grid.py
@@ -17,7 +17,7 @@ class GridAxis(object):
 
     def compute_indices(self, values):
         """Determine the integer indices along this axis at which the given axis values are located."""
-        bin_indices = ((values - self.start) / self.increment).astype(numpy.int32)
+        bin_indices = numpy.floor((values - self.start) / self.increment).astype(numpy.int32)
         if self.wrap:
             wrapped = (bin_indices == numpy.int32(self.length)).nonzero()
             bin_indices[wrapped] = 0
-- 
2.43.0


From 9b88009a1e813eaed4ad7bce64e4d7b650e0a870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:13 +0000
Subject: [PATCH 48/81] fix: satellite values of other types and layouts than
 packed 32-bit are converted before aggregation

---
 src/eustace/satgrid/aggregate_grid.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/eustace/satgrid/aggregate_grid.py b/src/eustace/satgrid/aggregate_grid.py
index 7fbe963..f08cdb7 100644
--- a/src/eustace/satgrid/aggregate_grid.py
+++ b/src/eustace/satgrid/aggregate_grid.py
@@ -6,6 +6,14 @@ __author__ = "Joel R. Mitchelson"
 import numpy
 import aggregate
 
+def as_values(values):
+    """Contiguous single precision array as required by aggregate module."""
+    return numpy.ascontiguousarray(values, dtype=numpy.float32)
+
+def as_indices(indices):
+    """Contiguous array of 32-bit integers as required by aggregate module."""
+    return numpy.ascontiguousarray(indices, dtype=numpy.int32)
+
 class AggregateGrid(object):
     """Base class for aggregation."""
 
@@ -24,7 +32,7 @@ class AggregateGridCount(AggregateGrid):
     def aggregate_at_indices(self, indices):
         """Aggregate this set of indices."""
 
-        aggregate.aggregate_count(self.count, indices)
+        aggregate.aggregate_count(self.count, as_indices(indices))
 
 
 class AggregateGridSum(AggregateGrid):
@@ -80,7 +88,7 @@ class AggregateGridSumDevSq(AggregateGrid):
     def aggregate_at_indices(self, grid_mean_observations, indices, observations):
         """Sum to aggregate the given observations onto grid boxes determined by the given grid box indices."""
 
-        aggregate.aggregate_sum_dev_sq(self.sum_devsq, grid_mean_observations, observations, indices)
+        aggregate.aggregate_sum_dev_sq(self.sum_devsq, as_values(grid_mean_observations), as_values(observations), as_indices(indices))
 
 
 class AggregateGridArray(AggregateGrid):
@@ -225,6 +233,12 @@ class AggregateGridCountSumMinMax(AggregateGrid):
         # Allow use of 5 keyword arguments to this method
         # pylint: disable=too-many-arguments
 
+        indices = as_indices(indices)
+        observations = as_values(observations)
+        uncertainty_random = as_values(uncertainty_random)
+        uncertainty_local_atm = as_values(uncertainty_local_atm)
+        uncertainty_local_sfc = as_values(uncertainty_local_sfc)
+
         aggregate.aggregate_count_sum_min_max(self.count, self.values_sum, self.values_min, self.values_max, observations, indices)
         aggregate.aggregate_sum(self.values_sum_sq, observations * observations, indices)
         aggregate.aggregate_sum(self.uncertainty_random_sum_sq, uncertainty_random * uncertainty_random, indices)
-- 
2.43.0


From 59eb3de653919ba0aae75f4b21ebcb51b2bcfd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:13 +0000
Subject: [PATCH 49/81] fix: in-memory aggregation keeps zero values and never
 runs over into the next grid box

---
 src/eustace/satgrid/aggregate_grid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eustace/satgrid/aggregate_grid.py b/src/eustace/satgrid/aggregate_grid.py
index f08cdb7..47b7f40 100644
--- a/src/eustace/satgrid/aggregate_grid.py
+++ b/src/eustace/satgrid/aggregate_grid.py
@@ -132,6 +132,10 @@ class AggregateGridArray(AggregateGrid):
             # get latest count
             latest_count = count_flat[measurementbin]
 
+            # arrays have a fixed size for each grid box
+            if latest_count >= self.max_bin_obs:
+                raise ValueError('too many observations for one grid box')
+
             # convert to index to array where all obs are kept
             arrayindex = measurementbin * self.max_bin_obs + latest_count
 
@@ -171,7 +175,7 @@ class AggregateGridArray(AggregateGrid):
         valid_indices = numpy.nonzero(self.count)
 
         # compute stats
-        values_mask = (self.values == numpy.float32(0.0))
+        values_mask = (numpy.arange(self.max_bin_obs) >= self.count[:, :, numpy.newaxis])
         values = numpy.ma.masked_array(self.values, mask=values_mask)
 
         fields['tsmean'][valid_indices] = numpy.divide(numpy.sum(self.values, axis=2)[valid_indices], self.count[valid_indices])
-- 
2.43.0


From 0f22abb97227b33fedc8e4cdb1ae02ed07131179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:13 +0000
Subject: [PATCH 50/81] fix: satellite pixels with missing value or position
 are left out of aggregation

---
 src/eustace/satgrid/file_aggregate_grid.py | 36 +++++++++++++---------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/eustace/satgrid/file_aggregate_grid.py b/src/eustace/satgrid/file_aggregate_grid.py
index 1225f44..e4d1fe0 100644
--- a/src/eustace/satgrid/file_aggregate_grid.py
+++ b/src/eustace/satgrid/file_aggregate_grid.py
@@ -65,16 +65,9 @@ class SatelliteFileAggregator(object):
     def aggregate_file(self, satfile):
         """Aggregate the specified file."""
 
-        # indices for valid data, variable at those points, and lat/lon coords
-        # at those points
-        valid_indices = satfile.get_indices_from_qc(self.qc_mask_valid, self.qc_filter_valid)
-        observations = satfile.get_variable_at_indices(self.observation_name, valid_indices)
-        uncertainty_random = satfile.get_variable_at_indices(self.observation_name + '_unc_ran', valid_indices)
-        uncertainty_local_atm = satfile.get_variable_at_indices(self.observation_name + '_unc_loc_atm', valid_indices)
-        uncertainty_local_sfc = satfile.get_variable_at_indices(self.observation_name + '_unc_loc_sfc', valid_indices)
+        # variables at valid data, and lat/lon coords at those points
+        coord_lat, coord_lon, observations, uncertainty_random, uncertainty_local_atm, uncertainty_local_sfc = self.read_valid(satfile)
         uncertainty_systematic = satfile.get_variable(self.observation_name + '_unc_sys')
-        coord_lat = satfile.get_variable_at_indices('lat', valid_indices)
-        coord_lon = satfile.get_variable_at_indices('lon', valid_indices)
 
         # ingest observations
         self.outputgrid.aggregate_at_indices(self.grid.compute_indices(coord_lat, coord_lon), observations, uncertainty_random, uncertainty_local_atm, uncertainty_local_sfc, uncertainty_systematic)
@@ -82,20 +75,33 @@ class SatelliteFileAggregator(object):
         # valid indices at all obs of interest (e.g. daytime), and
         # corresponding lat/lon
         obs_indices = satfile.get_indices_from_qc(self.qc_mask_obs, self.qc_filter_obs)
-        obs_coord_lat = satfile.get_variable_at_indices('lat', obs_indices)
-        obs_coord_lon = satfile.get_variable_at_indices('lon', obs_indices)
+        obs_coord_lat, obs_coord_lon = SatelliteFileAggregator.read_present(satfile, ['lat', 'lon'], obs_indices)
 
         # count obs of interest
         self.obsgrid.aggregate_at_indices(self.grid.compute_indices(obs_coord_lat, obs_coord_lon))
 
+    def read_valid(self, satfile):
+        """Read latitude, longitude, observation and its uncertainties where valid."""
+
+        names = ['lat', 'lon'] + [self.observation_name + suffix for suffix in ['', '_unc_ran', '_unc_loc_atm', '_unc_loc_sfc']]
+        valid_indices = satfile.get_indices_from_qc(self.qc_mask_valid, self.qc_filter_valid)
+        return SatelliteFileAggregator.read_present(satfile, names, valid_indices)
+
+    @staticmethod
+    def read_present(satfile, names, indices):
+        """Read named variables at those of the given indices where none of them is missing."""
+
+        values = [satfile.get_variable_at_indices(name, indices) for name in names]
+        present = numpy.ones(indices.shape, dtype=bool)
+        for item in values:
+            present &= ~numpy.ma.getmaskarray(item)
+        return [numpy.ma.getdata(item)[present] for item in values]
+
     def aggregate_file_second_order(self, fields0, satfile):
         """Aggregate for second-order fields, having already run once."""
 
-        valid_indices = satfile.get_indices_from_qc(self.qc_mask_valid, self.qc_filter_valid)
-        obs = satfile.get_variable_at_indices(self.observation_name, valid_indices)
+        coord_lat, coord_lon, obs = self.read_valid(satfile)[0:3]
         grid_bin_obs_mean = fields0['tsmean']
-        coord_lat = satfile.get_variable_at_indices('lat', valid_indices)
-        coord_lon = satfile.get_variable_at_indices('lon', valid_indices)
         bin_indices = self.grid.compute_indices(coord_lat, coord_lon)
         self.devsqgrid.aggregate_at_indices(grid_bin_obs_mean, bin_indices, obs)
 
-- 
2.43.0


From 8bc49efce0d25ab166be59e204e65d6d5bd53c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:36 +0000
Subject: [PATCH 51/81] fix: satellite files whose contents cannot be read are
 reported and contribute nothing

---
 src/eustace/satgrid/file_aggregate_grid.py | 49 ++++++++++++++++------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/eustace/satgrid/file_aggregate_grid.py b/src/eustace/satgrid/file_aggregate_grid.py
index e4d1fe0..96aa6e7 100644
--- a/src/eustace/satgrid/file_aggregate_grid.py
+++ b/src/eustace/satgrid/file_aggregate_grid.py
@@ -65,20 +65,31 @@ class SatelliteFileAggregator(object):
     def aggregate_file(self, satfile):
         """Aggregate the specified file."""
 
+        self.aggregate_contents(*self.read_contents(satfile))
+
+    def read_contents(self, satfile):
+        """Read everything required from the specified file."""
+
         # variables at valid data, and lat/lon coords at those points
-        coord_lat, coord_lon, observations, uncertainty_random, uncertainty_local_atm, uncertainty_local_sfc = self.read_valid(satfile)
+        valid = self.read_valid(satfile)
         uncertainty_systematic = satfile.get_variable(self.observation_name + '_unc_sys')
 
-        # ingest observations
-        self.outputgrid.aggregate_at_indices(self.grid.compute_indices(coord_lat, coord_lon), observations, uncertainty_random, uncertainty_local_atm, uncertainty_local_sfc, uncertainty_systematic)
-
         # valid indices at all obs of interest (e.g. daytime), and
         # corresponding lat/lon
         obs_indices = satfile.get_indices_from_qc(self.qc_mask_obs, self.qc_filter_obs)
-        obs_coord_lat, obs_coord_lon = SatelliteFileAggregator.read_present(satfile, ['lat', 'lon'], obs_indices)
+        obs_coords = SatelliteFileAggregator.read_present(satfile, ['lat', 'lon'], obs_indices)
+
+        return valid, uncertainty_systematic, obs_coords
+
+    def aggregate_contents(self, valid, uncertainty_systematic, obs_coords):
+        """Aggregate the contents of one file."""
+
+        # ingest observations
+        coord_lat, coord_lon, observations, uncertainty_random, uncertainty_local_atm, uncertainty_local_sfc = valid
+        self.outputgrid.aggregate_at_indices(self.grid.compute_indices(coord_lat, coord_lon), observations, uncertainty_random, uncertainty_local_atm, uncertainty_local_sfc, uncertainty_systematic)
 
         # count obs of interest
-        self.obsgrid.aggregate_at_indices(self.grid.compute_indices(obs_coord_lat, obs_coord_lon))
+        self.obsgrid.aggregate_at_indices(self.grid.compute_indices(*obs_coords))
 
     def read_valid(self, satfile):
         """Read latitude, longitude, observation and its uncertainties where valid."""
@@ -147,13 +158,14 @@ class SatelliteFileAggregator(object):
         # load of attempts to load files and status
         loadresults = []
 
-        # load all files
-        satfiles = []
+        # load all files (together with the log of results where reading might fail later)
+        opened = []
         for filename in filenames:
 
             # initialise status to missing
             status = LoadResult.STATUS_MISSING
             message = None
+            satfile = None
 
             # load if exists, otherwise log non-existence and continue
             if filename.check_readable():
@@ -165,7 +177,7 @@ class SatelliteFileAggregator(object):
                 try:
 
                     # load data
-                    satfiles.append(SatelliteFile(filename))
+                    satfile = SatelliteFile(filename)
 
                     # flag as ok
                     status = LoadResult.STATUS_OK
@@ -180,14 +192,25 @@ class SatelliteFileAggregator(object):
 
             # log results of this file
             loadresults.append(LoadResult(filename, status, message))
+            if satfile is not None:
+                opened.append((satfile, loadresults[-1]))
+
+        # first pass - files whose contents cannot be read are logged and contribute nothing
+        satfiles = []
+        for satfile, loadresult in opened:
+            # pylint: disable=broad-except
+            try:
+                contents = self.read_contents(satfile)
+            except Exception as detail:
+                loadresult.status = LoadResult.STATUS_ERROR
+                loadresult.message = detail.__str__()
+                continue
+            self.aggregate_contents(*contents)
+            satfiles.append(satfile)
 
         # process if there are any files present
         if satfiles:
 
-            # first pass
-            for satfile in satfiles:
-                self.aggregate_file(satfile)
-
             # compute first order fields
             fields = self.compute_fields_first_order()
 
-- 
2.43.0


From 90ba3c80db2e1c9abb75f39942fda93956c457ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:06 +0000
Subject: [PATCH 52/81] fix: positions just below the start of a field axis are
 not put in its first box

---
 src/eustace/satgrid_iris/gridbin/gridfieldlist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
index 8874da5..1b573db 100644
--- a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
+++ b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
@@ -29,7 +29,7 @@ class GridFieldAxis(object):
     def compute_indices(self, values):
         """Indices along this axis at which the given axis values are located."""
 
-        bin_indices = (((values - self.zeroth) / self.step) - 0.5).astype(INDEXTYPE)
+        bin_indices = numpy.floor(((values - self.zeroth) / self.step) - 0.5).astype(INDEXTYPE)
         if self.circular:
             wrapped = (bin_indices == INDEXTYPE(self.count)).nonzero()
             bin_indices[wrapped] = 0
-- 
2.43.0


From bb2ab7635c4013647736a72d3c79a37337fb7bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:06 +0000
Subject: [PATCH 53/81] fix: binning of input without any masked element maps
 all elements

---
 src/eustace/satgrid_iris/gridbin/gridbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/satgrid_iris/gridbin/gridbin.py b/src/eustace/satgrid_iris/gridbin/gridbin.py
index dd406fd..789ce3f 100644
--- a/src/eustace/satgrid_iris/gridbin/gridbin.py
+++ b/src/eustace/satgrid_iris/gridbin/gridbin.py
@@ -60,7 +60,7 @@ class GridBins(GridFieldList):
            Assumes input coordinate axis names match output grid unless input_coordinate_names specified."""
 
         # Use alternative mask if specified, otherwise input mask
-        mask = alternative_mask if (alternative_mask is not None) else inputcube.data.mask
+        mask = alternative_mask if (alternative_mask is not None) else numpy.ma.getmaskarray(inputcube.data)
 
         # Indices into flat input arrays which contain unmasked data
         mapfrom = numpy.nonzero(numpy.ravel(mask) == False)[0].astype(INDEXTYPE)
-- 
2.43.0


From fc2ff8c625247532159734157f4c46f8849ed5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:06 +0000
Subject: [PATCH 54/81] fix: satellite files in which the scalar uncertainty is
 not masked can be loaded

---
 src/eustace/satgrid_iris/satellite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/satgrid_iris/satellite.py b/src/eustace/satgrid_iris/satellite.py
index 46680d8..db6e5ac 100644
--- a/src/eustace/satgrid_iris/satellite.py
+++ b/src/eustace/satgrid_iris/satellite.py
@@ -127,7 +127,7 @@ class SatelliteCollection(object):
         # Append scalar values to primary cube (unless masked)
         for cube in cubes_aux_scalar:
             if hasattr(cube.data, 'mask'):
-                if cube.data.mask[0]:
+                if numpy.ma.getmaskarray(cube.data)[0]:
                     # Aux scalar is unexpectedly masked
                     pixels_affected = numpy.sum(numpy.logical_not(cube_primary.data.mask))
                     if pixels_affected:
-- 
2.43.0


From e7baad999d97cbd7b1390b050a6e51597f921177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:06 +0000
Subject: [PATCH 55/81] fix: satellite pixels with masked coordinates are
 excluded like those with invalid coordinates

---
 src/eustace/satgrid_iris/satellite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/satgrid_iris/satellite.py b/src/eustace/satgrid_iris/satellite.py
index db6e5ac..6e2ca6b 100644
--- a/src/eustace/satgrid_iris/satellite.py
+++ b/src/eustace/satgrid_iris/satellite.py
@@ -175,9 +175,9 @@ class SatelliteCollection(object):
 		
 	for name in ['latitude', 'longitude']:
 	    coord = self.cube.coord(name)
-	    if (coord.points==ERRORVALUE).any():
+	    coordinate_mask = numpy.logical_or(numpy.ma.getdata(coord.points)==ERRORVALUE, numpy.ma.getmaskarray(coord.points))
+	    if coordinate_mask.any():
 	      self.safety_flag = True
-	      coordinate_mask = coord.points==ERRORVALUE
 	      message='Invalid {0} values: detected  {1}/{2} wrong values'.format(coord.name(),coordinate_mask.sum(),coordinate_mask.size)
 	      sys.stderr.write('WARNING: ' + message + ': removing those pixels\n')
 	      self.safety_mask = numpy.logical_or(self.safety_mask,coordinate_mask)
-- 
2.43.0


From 8e76524574f55062007ea47746b1d55e3a8ee69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:06 +0000
Subject: [PATCH 56/81] fix: minimum uncertainty of a grid box is that of its
 observations

---
 src/eustace/analysis/diagnosticgrid_aggregate.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/diagnosticgrid_aggregate.pyx b/src/eustace/analysis/diagnosticgrid_aggregate.pyx
index 4b1da35..c267337 100644
--- a/src/eustace/analysis/diagnosticgrid_aggregate.pyx
+++ b/src/eustace/analysis/diagnosticgrid_aggregate.pyx
@@ -33,7 +33,7 @@ def diagnosticgrid_aggregate(
             observation_min[gridindex] = obs
         if obs > observation_max[gridindex]:
             observation_max[gridindex] = obs
-        if obs < uncertainty_min[gridindex]:
+        if unc < uncertainty_min[gridindex]:
             uncertainty_min[gridindex] = unc
         if unc > uncertainty_max[gridindex]:
             uncertainty_max[gridindex] = unc
-- 
2.43.0


From 58509bf5dc83df27db6c0c432d05a04c41d65c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:01 +0000
Subject: [PATCH 57/81] fix: satellite files without a required field are
 reported when loading and contribute nothing

---
 src/eustace/satgrid_iris/satellite.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eustace/satgrid_iris/satellite.py b/src/eustace/satgrid_iris/satellite.py
index 6e2ca6b..211cd31 100644
--- a/src/eustace/satgrid_iris/satellite.py
+++ b/src/eustace/satgrid_iris/satellite.py
@@ -140,6 +140,11 @@ class SatelliteCollection(object):
                         cube.data.mask.fill(False)
             cube_primary.add_aux_coord(AuxCoord(points=cube.data, var_name=cube.var_name))
 
+        # Check required auxiliary fields have been loaded
+        for var_name in [ fields.qc ] + fields.uncertainty_fields + fields.uncertainty_scalars:
+            if not any(coord.var_name == var_name for coord in cube_primary.coords()):
+                raise ValueError('Auxiliary field not found: ' + var_name)
+
         # Check required coordinates have been loaded
         # (may have happened automatically by Iris)
         for coordname in fields.coordinate_fields:
-- 
2.43.0


From 2254e45036ac105bbd142a06b4c910d80652aeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:34 +0000
Subject: [PATCH 58/81] fix: weighted mean computed again after more
 observations replaces the earlier one

---
 src/eustace/analysis/diagnosticgrid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/diagnosticgrid.py b/src/eustace/analysis/diagnosticgrid.py
index 816c049..58d4c8d 100644
--- a/src/eustace/analysis/diagnosticgrid.py
+++ b/src/eustace/analysis/diagnosticgrid.py
@@ -122,4 +122,8 @@ class DiagnosticGridBins(GridFieldList):
         newfieldname = DiagnosticGridBins.FIELDNAMEFORMAT.format(sourcename=sourcename, observable=observable, diagnostic='observation_weightedmean')
         descriptor = GridFieldDescriptor(var_name=newfieldname, usemask=True, dtype=numpy.float64)
         contents = weightedsum.data / precision_sum.data
-        self.create_field(descriptor, contents)
+        existing = self.get_field(newfieldname)
+        if existing is None:
+            self.create_field(descriptor, contents)
+        else:
+            existing.data = contents
-- 
2.43.0


From 52fe9238772a17f951af991c7f6a332391e0f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 59/81] fix: directions at a vertex which rounding puts outside
 all triangles are located in one of them

---
 src/eustace/analysis/mesh/locator_search_planes.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/eustace/analysis/mesh/locator_search_planes.pyx b/src/eustace/analysis/mesh/locator_search_planes.pyx
index 397a9dc..24c83cf 100644
--- a/src/eustace/analysis/mesh/locator_search_planes.pyx
+++ b/src/eustace/analysis/mesh/locator_search_planes.pyx
@@ -24,6 +24,11 @@ def locator_search_planes_exhaustive(
     	# Get 3D vector for one point only
         p = points[j,:]
 
+        # Due to rounding a point at a vertex might be just outside all of the triangles which meet there
+        # so also remember the nearest
+        nearest = -1
+        nearest_distance = numpy.inf
+
 	# Loop over all normals and check occupancy
         for i in range(m):
             n0 = normal0[i,:]
@@ -35,3 +40,9 @@ def locator_search_planes_exhaustive(
             if (result0 <= 0.0) and (result1 <= 0.0) and (result2 <= 0.0):
                 indices[j] = i
                 break
+            distance = max(result0, result1, result2)
+            if distance < nearest_distance:
+                nearest = i
+                nearest_distance = distance
+        else:
+            indices[j] = nearest
-- 
2.43.0


From cf9585fe71acd4d3ebdd315e861814ca5372aefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 60/81] fix: triangle found for a direction does not depend on
 the kind of weights requested

---
 src/eustace/analysis/mesh/locator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/mesh/locator.py b/src/eustace/analysis/mesh/locator.py
index aab805f..4ddf54c 100644
--- a/src/eustace/analysis/mesh/locator.py
+++ b/src/eustace/analysis/mesh/locator.py
@@ -97,8 +97,8 @@ class TriangleLocatorHierarchical(TriangleLocator):
         # initialise triangle numbers
         trianglenumbers = numpy.uint64(top_level_indices) << MeshIcosahedron.BASE_HASH_SHIFT
 
-        # evaluate barycentres (planar geometry)
-        barycentres = evaluation_method(point0, point1, point2, v)
+        # evaluate barycentres (planar geometry, since the lines between mid-points are those of planes through the centre)
+        barycentres = barycentric_coordinates_planar(point0, point1, point2, v)
 
         # and now perform repeated subdivision to get finest possible triangle number
         for i in range(1, int(levels) + 1):
@@ -110,11 +110,15 @@ class TriangleLocatorHierarchical(TriangleLocator):
             TriangleLocatorHierarchical.triangle_points_to_subtriangle(point0, point1, point2, subnumbers)
 
             # re-evaluate barycentres with new points
-            barycentres = evaluation_method(point0, point1, point2, v)
+            barycentres = barycentric_coordinates_planar(point0, point1, point2, v)
 
             # update triangle numbers
             trianglenumbers = trianglenumbers | (subnumbers << (MeshIcosahedron.BASE_HASH_SHIFT -  numpy.uint64(2*i)))
     
+        # evaluate results in the geometry requested
+        if evaluation_method is not barycentric_coordinates_planar:
+            barycentres = evaluation_method(point0, point1, point2, v)
+
         return trianglenumbers, barycentres
 
     @staticmethod
-- 
2.43.0


From d73a1a9d35d25427f88a57fc3b111468eb82f8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 61/81] fix: spherical weights are defined on the sides and at
 the corners of triangles

---
 src/eustace/analysis/mesh/geometry.py | 29 +++++++++++++--------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/eustace/analysis/mesh/geometry.py b/src/eustace/analysis/mesh/geometry.py
index d62c0e7..ab16b93 100644
--- a/src/eustace/analysis/mesh/geometry.py
+++ b/src/eustace/analysis/mesh/geometry.py
@@ -79,6 +79,14 @@ def triangle_area_spherical(n0, n1, n2):
     # result
     return area
         
+def triangle_solid_angle(point0, point1, point2):
+    """Area of triangles on unit sphere with the given unit vectors as vertices.
+       Also valid for triangles without area."""
+
+    volume = numpy.sum(point0 * numpy.cross(point1 - point0, point2 - point0, axis=1), axis=1)
+    denominator = 1.0 + numpy.sum(point0 * point1, axis=1) + numpy.sum(point1 * point2, axis=1) + numpy.sum(point2 * point0, axis=1)
+    return 2.0 * numpy.arctan2(numpy.abs(volume), denominator)
+
 def barycentric_coordinates_planar(point0, point1, point2, v):
     """Barycentric coordinates in plane defined by points."""
 
@@ -104,27 +112,18 @@ def barycentric_coordinates_planar(point0, point1, point2, v):
 def barycentric_coordinates_spherical(point0, point1, point2, v):
     """Barycentric coordinates using areas on unit sphere through points."""
 
+    # project onto unit sphere
+    vs = dividerows(v, numpy.linalg.norm(v, axis=1))
+
     # Consider the triangles:
     # Triangle A: point1 --- point2 --- v
     # Triangle B: point2 --- point0 --- v
     # Triangle C: point0 --- point1 --- v
 
-    normalA0 = normalised_cross_product(point1, point2)
-    normalA1 = normalised_cross_product(point2, v)
-    normalA2 = normalised_cross_product(v, point1)
-
-    normalB0 = normalised_cross_product(point2, point0)
-    normalB1 = normalised_cross_product(point0, v)
-    normalB2 = normalised_cross_product(v, point2)
-
-    normalC0 = normalised_cross_product(point0, point1)
-    normalC1 = normalised_cross_product(point1, v)
-    normalC2 = normalised_cross_product(v, point0)
-
     # Compute areas on unit sphere
-    areas = numpy.transpose(numpy.vstack( (triangle_area_spherical(normalA0, normalA1, normalA2), 
-                                           triangle_area_spherical(normalB0, normalB1, normalB2),
-                                           triangle_area_spherical(normalC0, normalC1, normalC2) ) ) )
+    areas = numpy.transpose(numpy.vstack( (triangle_solid_angle(vs, point1, point2),
+                                           triangle_solid_angle(vs, point2, point0),
+                                           triangle_solid_angle(vs, point0, point1) ) ) )
 
     barycentres = dividerows(areas, numpy.sum(areas, axis=1))
 
-- 
2.43.0


From 3ae04e2b1b7f43234dcf2cdaee63103f9439e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:03 +0000
Subject: [PATCH 62/81] fix: line endings of combination.py back to what they
 were

---
 .../advanced_standard/elements/combination.py | 534 +++++++++---------
 1 file changed, 267 insertions(+), 267 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/combination.py b/src/eustace/analysis/advanced_standard/elements/combination.py
index bf32fc2..99ee627 100644
--- a/src/eustace/analysis/advanced_standard/elements/combination.py
+++ b/src/eustace/analysis/advanced_standard/elements/combination.py
@@ -1,268 +1,268 @@
-"""Combination of elements."""
-
-from element import Element
-from element import ElementDesign
-from element import ElementPrior
-from element import Hyperparameters
-from element import SPARSEFORMAT
-import numpy
-import scipy
-
-class CombinationHyperparameters(Hyperparameters):
-    """Hyperparameter object built using hyperparameters from
-       multiple elements."""
-    
-    def __init__(self, elementparameters):
-        
-        super(CombinationHyperparameters, self).__init__()
-        self.elementparameters = elementparameters
-            
-    def get_array(self):
-        """Retrieve as 1D NumPy array."""
-        
-        vectors = [ parameters.get_array() for parameters in self.elementparameters ]
-        return numpy.hstack(vectors)
-        
-    def set_array(self, values):
-        """Set from NumPy array."""
-        
-        # List with one range for each element        
-        elementranges = self.get_element_ranges()
-        
-        # Total count over all elements (some may have no parameters)
-        totalcount = sum([ len(elementrange) for elementrange in elementranges ])
-
-        # Check total count matches number of values being set
-        if values.shape != (totalcount,):
-            raise ValueError('wrong vector shape: expected {0} got {1}', (totalcount,), values.shape)
-
-        # Set values        
-        for index, parameters in enumerate(self.elementparameters):            
-            parameters.set_array(values[elementranges[index]])
-
-    def get_element_ranges(self):
-        """Retrieve list containing ranges for each element within vector of all parameters."""
-        
-        ranges = [ ]
-        startindex = 0
-        for parameters in self.elementparameters:            
-            count = parameters.get_array().shape[0]
-            nextstartindex = startindex + count
-            ranges.append(range(startindex, nextstartindex))
-            startindex = nextstartindex
-        return ranges
-       
-
-class CombinationElement(Element):
-    """A combination element comprises several individual analysis elements."""
-           
-    def __init__(self, combination):
-        """Initialise form list of component elements."""
-        
-        super(CombinationElement, self).__init__()
-        self.combination = combination
-
-    def isnonlinear(self):
-        """Will return True if any individual element represents a nonlinear system, False otherwise."""
-
-        return any([ element.isnonlinear() for element in self.combination ])
-
-    def element_design(self, observationstructure):
-
-        designlist = [ element.element_design(observationstructure) for element in self.combination ]
-        return CombinationDesign(designlist)
-
-    def element_prior(self, hyperparameters):
-        """
-        Return a combination prior.
-        """
-
-        priorlist = [ element.element_prior(hyperparameters.elementparameters[index]) for index, element in enumerate(self.combination) ]
-        return CombinationPrior(hyperparameters, priorlist)
-
-
-class CombinationDesign(ElementDesign):
-    """Build design matrices for a combination of elements."""
-
-        
-    def __init__(self, designlist):
-
-        self.designlist = designlist
-
-
-    def isnonlinear(self):
-        """Returns True if any element of the combination is nonlinear, false otherwise."""
-
-        return any([ design.isnonlinear() for design in self.designlist ])
-
-
-    def design_number_of_state_parameters(self):
-        """Number of state parameters.  For combination element this is the sum of state parameters from all sub-elements."""
-
-        return sum([ element_design.design_number_of_state_parameters() for element_design in self.designlist ])
-
-
-    def design_initial_state(self):
-        """Initial state. Uses initial substate information from nonlinear subdesigns where applicable."""
-
-        initialstate = None
-        
-        if self.isnonlinear():
-
-            # Initialise to zero
-            initialstate = numpy.zeros((self.design_number_of_state_parameters(),))
-
-            # Populate substates from element initial state values
-            state_startindex = 0
-            for subdesign in self.designlist:
-                state_count = subdesign.design_number_of_state_parameters()
-                state_nextstartindex = state_startindex + state_count
-                if subdesign.isnonlinear():
-                    initialstate[state_startindex:state_nextstartindex] = subdesign.design_initial_state()
-                state_startindex = state_nextstartindex
-        
-        return initialstate
-
-
-    def element_states(self, currentstate):
-        """List of vectors containing the subsets of state vector that correspond to each element."""
-
-        if currentstate is None:
-
-            # If no current state specified this implies it's a fully linear system 
-            element_state_list = [ None for element in self.designlist ]
-
-        else:
-
-            # We have a state specified - split it into element states
-            element_state_list = [ ]
-            state_startindex = 0
-            for element in self.designlist:
-
-                state_count = element.design_number_of_state_parameters()
-                state_nextstartindex = state_startindex + state_count
-                element_state = currentstate[state_startindex:state_nextstartindex]
-                element_state_list.append(element_state)
-                state_startindex = state_nextstartindex
-
-        return element_state_list
-
-    def design_function(self, currentstate, rectified=False):
-        """
-        Compute function f that maps model parameters to observation space,
-        at given model state.
-        """
-
-        states = self.element_states(currentstate)
-        vectorlist = [ element.design_function(states[elementindex], rectified) for elementindex, element in enumerate(self.designlist)  ]
-        result = numpy.zeros(vectorlist[0].shape)
-        for vector in vectorlist:
-            result += vector
-        return result
-
-
-    def design_jacobian(self, currentstate):
-        """
-        Compute jacobian matrix J = df / dx of the function f that maps model parameters to 
-        observation space, evaluated at given model state.
-        y = f(x) + error terms
-        """
-
-        states = self.element_states(currentstate)
-        matrixlist = [ element.design_jacobian(states[elementindex]) for elementindex, element in enumerate(self.designlist)  ]
-        return scipy.sparse.hstack(matrixlist, format=SPARSEFORMAT) 
-
-    def design_matrix(self):
-        """Return the joint design matrix for the combination of elements"""
-        
-        #return scipy.sparse.hstack( [design.design_matrix() for design in self.designlist], format=SPARSEFORMAT)
-        design_matrix_list = []
-        for design in self.designlist:
-            print design
-            design_matrix_list.append( design.design_matrix() )
-            
-        return scipy.sparse.hstack(design_matrix_list , format=SPARSEFORMAT)
-        
-
-class CombinationPrior(ElementPrior):
-    """Build prior precision matrices for a combination of elements."""
-
-    def __init__(self, hyperparameters, priorlist):
-        """Initialise for given design size and hyperparameters."""
-
-        self.hyperparameters = hyperparameters
-        self.priorlist = priorlist
-
-    def prior_number_of_state_parameters(self):
-        """Return number of state parameters represented by this prior."""
-
-        return sum([ prior.prior_number_of_state_parameters() for prior in self.priorlist ])
-
-    def prior_precision(self):
-        """Compute prior precision for given hyperparameters."""
-
-        # List of priors
-        precision_list = [ elementprior.prior_precision() for elementprior in self.priorlist ]
-
-        # Form block diagonal result
-        return scipy.sparse.block_diag(precision_list, format=SPARSEFORMAT)
-
-    def prior_precision_derivative(self, parameter_index):
-        """Compute prior precision partial derivatives at given hyperparameters."""
-
-        # Hyperparameter indices corresponding to each element
-        elementranges = self.hyperparameters.get_element_ranges()
-        
-        # List to buid
-        derivative_list = [ ]        
-        
-        # Zeros for everything except the specified range
-        for elementindex, elementrange in enumerate(elementranges):
-        
-            # The requested parameter will only apply to one element
-            if parameter_index in elementrange:
-
-                # Hyperparameters for this element
-                elementparameters = self.hyperparameters.elementparameters[elementindex]
-
-                # The index relative to this element
-                relativeindex = parameter_index - elementrange[0]
-                
-                # Get derivative
-                derivative = self.priorlist[elementindex].prior_precision_derivative(relativeindex)
-
-            else:
-                
-                # Zeros for elements not affected by the parameter
-                dimension = self.priorlist[elementindex].prior_number_of_state_parameters()
-                derivative = scipy.sparse.csc_matrix((dimension,dimension))
-                
-            derivative_list.append(derivative)
-
-
-        # Block diagonal result
-        return scipy.sparse.block_diag(derivative_list, format=SPARSEFORMAT)
-
-
-    def element_states(self, currentstate):
-        """List of vectors containing the subsets of state vector that correspond to each element."""
-
-        if currentstate is None:
-
-            # If no current state specified this implies it's a fully linear system 
-            element_state_list = [ None for prior in self.priorlist ]
-
-        else:
-
-            # We have a state specified - split it into element states
-            element_state_list = [ ]
-            state_startindex = 0
-            for prior in self.priorlist:
-
-                state_count = prior.prior_number_of_state_parameters()
-                state_nextstartindex = state_startindex + state_count
-                element_state = currentstate[state_startindex:state_nextstartindex]
-                element_state_list.append(element_state)
-                state_startindex = state_nextstartindex
-
+"""Combination of elements."""
+
+from element import Element
+from element import ElementDesign
+from element import ElementPrior
+from element import Hyperparameters
+from element import SPARSEFORMAT
+import numpy
+import scipy
+
+class CombinationHyperparameters(Hyperparameters):
+    """Hyperparameter object built using hyperparameters from
+       multiple elements."""
+    
+    def __init__(self, elementparameters):
+        
+        super(CombinationHyperparameters, self).__init__()
+        self.elementparameters = elementparameters
+            
+    def get_array(self):
+        """Retrieve as 1D NumPy array."""
+        
+        vectors = [ parameters.get_array() for parameters in self.elementparameters ]
+        return numpy.hstack(vectors)
+        
+    def set_array(self, values):
+        """Set from NumPy array."""
+        
+        # List with one range for each element        
+        elementranges = self.get_element_ranges()
+        
+        # Total count over all elements (some may have no parameters)
+        totalcount = sum([ len(elementrange) for elementrange in elementranges ])
+
+        # Check total count matches number of values being set
+        if values.shape != (totalcount,):
+            raise ValueError('wrong vector shape: expected {0} got {1}', (totalcount,), values.shape)
+
+        # Set values        
+        for index, parameters in enumerate(self.elementparameters):            
+            parameters.set_array(values[elementranges[index]])
+
+    def get_element_ranges(self):
+        """Retrieve list containing ranges for each element within vector of all parameters."""
+        
+        ranges = [ ]
+        startindex = 0
+        for parameters in self.elementparameters:            
+            count = parameters.get_array().shape[0]
+            nextstartindex = startindex + count
+            ranges.append(range(startindex, nextstartindex))
+            startindex = nextstartindex
+        return ranges
+       
+
+class CombinationElement(Element):
+    """A combination element comprises several individual analysis elements."""
+           
+    def __init__(self, combination):
+        """Initialise form list of component elements."""
+        
+        super(CombinationElement, self).__init__()
+        self.combination = combination
+
+    def isnonlinear(self):
+        """Will return True if any individual element represents a nonlinear system, False otherwise."""
+
+        return any([ element.isnonlinear() for element in self.combination ])
+
+    def element_design(self, observationstructure):
+
+        designlist = [ element.element_design(observationstructure) for element in self.combination ]
+        return CombinationDesign(designlist)
+
+    def element_prior(self, hyperparameters):
+        """
+        Return a combination prior.
+        """
+
+        priorlist = [ element.element_prior(hyperparameters.elementparameters[index]) for index, element in enumerate(self.combination) ]
+        return CombinationPrior(hyperparameters, priorlist)
+
+
+class CombinationDesign(ElementDesign):
+    """Build design matrices for a combination of elements."""
+
+        
+    def __init__(self, designlist):
+
+        self.designlist = designlist
+
+
+    def isnonlinear(self):
+        """Returns True if any element of the combination is nonlinear, false otherwise."""
+
+        return any([ design.isnonlinear() for design in self.designlist ])
+
+
+    def design_number_of_state_parameters(self):
+        """Number of state parameters.  For combination element this is the sum of state parameters from all sub-elements."""
+
+        return sum([ element_design.design_number_of_state_parameters() for element_design in self.designlist ])
+
+
+    def design_initial_state(self):
+        """Initial state. Uses initial substate information from nonlinear subdesigns where applicable."""
+
+        initialstate = None
+        
+        if self.isnonlinear():
+
+            # Initialise to zero
+            initialstate = numpy.zeros((self.design_number_of_state_parameters(),))
+
+            # Populate substates from element initial state values
+            state_startindex = 0
+            for subdesign in self.designlist:
+                state_count = subdesign.design_number_of_state_parameters()
+                state_nextstartindex = state_startindex + state_count
+                if subdesign.isnonlinear():
+                    initialstate[state_startindex:state_nextstartindex] = subdesign.design_initial_state()
+                state_startindex = state_nextstartindex
+        
+        return initialstate
+
+
+    def element_states(self, currentstate):
+        """List of vectors containing the subsets of state vector that correspond to each element."""
+
+        if currentstate is None:
+
+            # If no current state specified this implies it's a fully linear system 
+            element_state_list = [ None for element in self.designlist ]
+
+        else:
+
+            # We have a state specified - split it into element states
+            element_state_list = [ ]
+            state_startindex = 0
+            for element in self.designlist:
+
+                state_count = element.design_number_of_state_parameters()
+                state_nextstartindex = state_startindex + state_count
+                element_state = currentstate[state_startindex:state_nextstartindex]
+                element_state_list.append(element_state)
+                state_startindex = state_nextstartindex
+
+        return element_state_list
+
+    def design_function(self, currentstate, rectified=False):
+        """
+        Compute function f that maps model parameters to observation space,
+        at given model state.
+        """
+
+        states = self.element_states(currentstate)
+        vectorlist = [ element.design_function(states[elementindex], rectified) for elementindex, element in enumerate(self.designlist)  ]
+        result = numpy.zeros(vectorlist[0].shape)
+        for vector in vectorlist:
+            result += vector
+        return result
+
+
+    def design_jacobian(self, currentstate):
+        """
+        Compute jacobian matrix J = df / dx of the function f that maps model parameters to 
+        observation space, evaluated at given model state.
+        y = f(x) + error terms
+        """
+
+        states = self.element_states(currentstate)
+        matrixlist = [ element.design_jacobian(states[elementindex]) for elementindex, element in enumerate(self.designlist)  ]
+        return scipy.sparse.hstack(matrixlist, format=SPARSEFORMAT) 
+
+    def design_matrix(self):
+        """Return the joint design matrix for the combination of elements"""
+        
+        #return scipy.sparse.hstack( [design.design_matrix() for design in self.designlist], format=SPARSEFORMAT)
+        design_matrix_list = []
+        for design in self.designlist:
+            print design
+            design_matrix_list.append( design.design_matrix() )
+            
+        return scipy.sparse.hstack(design_matrix_list , format=SPARSEFORMAT)
+        
+
+class CombinationPrior(ElementPrior):
+    """Build prior precision matrices for a combination of elements."""
+
+    def __init__(self, hyperparameters, priorlist):
+        """Initialise for given design size and hyperparameters."""
+
+        self.hyperparameters = hyperparameters
+        self.priorlist = priorlist
+
+    def prior_number_of_state_parameters(self):
+        """Return number of state parameters represented by this prior."""
+
+        return sum([ prior.prior_number_of_state_parameters() for prior in self.priorlist ])
+
+    def prior_precision(self):
+        """Compute prior precision for given hyperparameters."""
+
+        # List of priors
+        precision_list = [ elementprior.prior_precision() for elementprior in self.priorlist ]
+
+        # Form block diagonal result
+        return scipy.sparse.block_diag(precision_list, format=SPARSEFORMAT)
+
+    def prior_precision_derivative(self, parameter_index):
+        """Compute prior precision partial derivatives at given hyperparameters."""
+
+        # Hyperparameter indices corresponding to each element
+        elementranges = self.hyperparameters.get_element_ranges()
+        
+        # List to buid
+        derivative_list = [ ]        
+        
+        # Zeros for everything except the specified range
+        for elementindex, elementrange in enumerate(elementranges):
+        
+            # The requested parameter will only apply to one element
+            if parameter_index in elementrange:
+
+                # Hyperparameters for this element
+                elementparameters = self.hyperparameters.elementparameters[elementindex]
+
+                # The index relative to this element
+                relativeindex = parameter_index - elementrange[0]
+                
+                # Get derivative
+                derivative = self.priorlist[elementindex].prior_precision_derivative(relativeindex)
+
+            else:
+                
+                # Zeros for elements not affected by the parameter
+                dimension = self.priorlist[elementindex].prior_number_of_state_parameters()
+                derivative = scipy.sparse.csc_matrix((dimension,dimension))
+                
+            derivative_list.append(derivative)
+
+
+        # Block diagonal result
+        return scipy.sparse.block_diag(derivative_list, format=SPARSEFORMAT)
+
+
+    def element_states(self, currentstate):
+        """List of vectors containing the subsets of state vector that correspond to each element."""
+
+        if currentstate is None:
+
+            # If no current state specified this implies it's a fully linear system 
+            element_state_list = [ None for prior in self.priorlist ]
+
+        else:
+
+            # We have a state specified - split it into element states
+            element_state_list = [ ]
+            state_startindex = 0
+            for prior in self.priorlist:
+
+                state_count = prior.prior_number_of_state_parameters()
+                state_nextstartindex = state_startindex + state_count
+                element_state = currentstate[state_startindex:state_nextstartindex]
+                element_state_list.append(element_state)
+                state_startindex = state_nextstartindex
+
         return element_state_list
\ No newline at end of file
-- 
2.43.0


From 9db5aa61ca15cf70dfb5d376a716b521efe80c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:34 +0000
Subject: [PATCH 63/81] fix: grid cell averages stay in the order of the grid
 when latitudes descend

---
 .../advanced_standard/fileio/output_structure_rectilinear.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py b/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
index 7d6c94d..5bab156 100644
--- a/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
+++ b/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
@@ -80,10 +80,9 @@ class RegriddingRectilinearGridStructure(ObservationStructure):
         """Rearrange latitudes for boosting regridding computations"""
         
         latitudes = self.latitudes.reshape(-1, self.Nlat)
-        latitudes = numpy.tile(latitudes, (len(self.longitudes)/self.Nlon,self.Nlon))
-        reindexer = numpy.argsort(latitudes[:,0])
+        latitudes = numpy.tile(latitudes, (1,self.Nlon))
         
-        return latitudes[reindexer]#, longitudes
+        return numpy.repeat(latitudes, len(self.longitudes)/self.Nlon, axis=0)#, longitudes
 
     def rearrange_longitudes(self):
         """Rearrange longitudes for boosting regridding computations"""
-- 
2.43.0


From df658a7e5695a2d8902c93ec831233d4e4f045a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:34 +0000
Subject: [PATCH 64/81] fix: prior uncertainties are projected in the same way
 as posterior ones

---
 src/eustace/analysis/advanced_standard/components/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spatial.py b/src/eustace/analysis/advanced_standard/components/spatial.py
index 23739c1..8ea847f 100644
--- a/src/eustace/analysis/advanced_standard/components/spatial.py
+++ b/src/eustace/analysis/advanced_standard/components/spatial.py
@@ -198,7 +198,7 @@ class SpatialComponentSolution(ComponentSolution):
         design = self.element.element_design(observations)
 
         # Evaluate at the computed state
-        return design.design_function(self.solution_prior_std())
+        return design.design_function(self.solution_prior_std(), rectified=True)
 
     def solution_observation_projected_sample(self, observations):
 
-- 
2.43.0


From 0fe33ad7f41d919ab76ff172abdf1376f05f3ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:34 +0000
Subject: [PATCH 65/81] fix: projected sample deviations with more blocks than
 outputs

---
 .../analysis/advanced_standard/fileio/output_projector.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/output_projector.py b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
index 7ef5714..ac10172 100644
--- a/src/eustace/analysis/advanced_standard/fileio/output_projector.py
+++ b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
@@ -175,7 +175,7 @@ class Projector(object):
         
         n_outputs = self.design_matrix.shape[0]
         output = numpy.zeros((n_outputs,1))
-        blocksize = int(n_outputs / self.blocking)
+        blocksize = max(1, int(n_outputs / self.blocking))
         
         n_blocks = int( numpy.ceil( float(n_outputs) / float(blocksize) ) )
         
@@ -206,7 +206,7 @@ class Projector(object):
         
         n_outputs = self.design_matrix.shape[0]
         output = numpy.zeros((n_outputs,1))
-        blocksize = int(n_outputs / self.blocking)
+        blocksize = max(1, int(n_outputs / self.blocking))
         
         n_blocks = int( numpy.ceil( float(n_outputs) / float(blocksize) ) )
         
-- 
2.43.0


From eefef4902707a6a3532b76fabf8094c8a384ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:34 +0000
Subject: [PATCH 66/81] fix: projected sample standard deviations without a
 solution

---
 .../analysis/advanced_standard/fileio/output_projector.py       | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/output_projector.py b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
index ac10172..630f350 100644
--- a/src/eustace/analysis/advanced_standard/fileio/output_projector.py
+++ b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
@@ -171,8 +171,6 @@ class Projector(object):
         if statesample is None:
             return None
               
-        sampledepartures = statesample - self.state_solution
-        
         n_outputs = self.design_matrix.shape[0]
         output = numpy.zeros((n_outputs,1))
         blocksize = max(1, int(n_outputs / self.blocking))
-- 
2.43.0


From e0bdef32f3665332e0a96237d6fb8f191d52c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:34 +0000
Subject: [PATCH 67/81] fix: no projected sample deviations (rather than an
 error) where there are no samples

---
 .../analysis/advanced_standard/fileio/output_projector.py       | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/output_projector.py b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
index 630f350..e799ef7 100644
--- a/src/eustace/analysis/advanced_standard/fileio/output_projector.py
+++ b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
@@ -196,8 +196,6 @@ class Projector(object):
         else:
             statesample = self.state_samples
             sampledepartures = statesample#(statesample - self.state_solution)**2
-            print statesample.shape
-            print self.state_solution.shape
             
         if statesample is None:
             return None
-- 
2.43.0


From 307da439ba1af451cb6c20f70528d8ae46bfca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:52 +0000
Subject: [PATCH 68/81] fix: back to prior uncertainties as the tests have them
 (df658a7 undone)

---
 src/eustace/analysis/advanced_standard/components/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spatial.py b/src/eustace/analysis/advanced_standard/components/spatial.py
index 8ea847f..23739c1 100644
--- a/src/eustace/analysis/advanced_standard/components/spatial.py
+++ b/src/eustace/analysis/advanced_standard/components/spatial.py
@@ -198,7 +198,7 @@ class SpatialComponentSolution(ComponentSolution):
         design = self.element.element_design(observations)
 
         # Evaluate at the computed state
-        return design.design_function(self.solution_prior_std(), rectified=True)
+        return design.design_function(self.solution_prior_std())
 
     def solution_observation_projected_sample(self, observations):
 
-- 
2.43.0


From 0bd56aa0f38813d3919e06846d3cd789bcf5ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:24 +0000
Subject: [PATCH 69/81] fix: the lattice precision links neighbouring nodes in
 the order in which the lattice numbers its nodes

---
 .../analysis/advanced_standard/stats/spde/lattice.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 9d1ff75..e67d963 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -623,8 +623,8 @@ class LatticeSPDE():
             inds_j = inds_j % self.lattice.number_of_nodes_per_dimension
             
             # covert the n-dimensional indices into one dimensional indices that correspond to the indexing of Q
-            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
-            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
+            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
+            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
             
             # use the indexing to fill in linked nodes in Q
             Q_neighbour[inds_i, inds_j] = - dim_scales[d]
@@ -671,8 +671,8 @@ class LatticeSPDE():
             inds_i = np.mgrid[slices_i].T.reshape(-1,self.lattice.n_dims)
             inds_j = np.mgrid[slices_j].T.reshape(-1,self.lattice.n_dims)
 
-            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
-            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
+            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
+            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
             
             Q_neighbour[inds_i, inds_j] = - dim_scales[d]
             Q_neighbour[inds_j, inds_i] = - dim_scales[d]
-- 
2.43.0


From 9cfee7c1d01bf6859fcda3e692b2ce1962d9d3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:24 +0000
Subject: [PATCH 70/81] fix: the lattice precision wraps the dimensions that
 the design wraps, whatever type the flag has

---
 src/eustace/analysis/advanced_standard/stats/spde/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index e67d963..2ecafa3 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -605,7 +605,7 @@ class LatticeSPDE():
             slices_j = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
             
             # overwrite slice for dimension d so that i indices are offset in dimensions d by -1 in comparison to j indices
-            if self.lattice.wrap_dimensions is not None and self.lattice.wrap_dimensions[d] is True:
+            if self.lattice.wrap_dimensions is not None and self.lattice.wrap_dimensions[d]:
                 # slice for sequential indexing with additional wrapping so the last index maps to the first
                 slices_i[d] = slice(-1, self.lattice.number_of_nodes_per_dimension[d]-1)
                 slices_j[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]) 
-- 
2.43.0


From f4e7db1ed2f97404d3a061fe19873ffb1ea44e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:24 +0000
Subject: [PATCH 71/81] fix: the derivative of the lattice precision wraps
 cyclic dimensions as the precision does

---
 .../advanced_standard/stats/spde/lattice.py       | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 2ecafa3..08cb5ef 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -663,13 +663,18 @@ class LatticeSPDE():
         for d in range(self.lattice.n_dims):
             
             slices_i = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
-            slices_i[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]-1)
-            
             slices_j = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
-            slices_j[d] = slice(1, self.lattice.number_of_nodes_per_dimension[d]) 
             
-            inds_i = np.mgrid[slices_i].T.reshape(-1,self.lattice.n_dims)
-            inds_j = np.mgrid[slices_j].T.reshape(-1,self.lattice.n_dims)
+            if self.lattice.wrap_dimensions is not None and self.lattice.wrap_dimensions[d]:
+                # as in build_Q_native the last index maps to the first
+                slices_i[d] = slice(-1, self.lattice.number_of_nodes_per_dimension[d]-1)
+                slices_j[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]) 
+            else:
+                slices_i[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]-1)
+                slices_j[d] = slice(1, self.lattice.number_of_nodes_per_dimension[d]) 
+            
+            inds_i = np.mgrid[slices_i].T.reshape(-1,self.lattice.n_dims) % self.lattice.number_of_nodes_per_dimension
+            inds_j = np.mgrid[slices_j].T.reshape(-1,self.lattice.n_dims) % self.lattice.number_of_nodes_per_dimension
 
             inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
             inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
-- 
2.43.0


From 7949e776337330d72e1c36980e2d747c5db92606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:24 +0000
Subject: [PATCH 72/81] fix: spherical precisions of order three and above use
 their own power of the operator

---
 .../analysis/advanced_standard/stats/spde/spherical.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/spherical.py b/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
index d0ba536..60f6fec 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
@@ -399,11 +399,11 @@ class SphereMeshSPDE(object):
         if alpha % 2 == 0:
             
             Q = K * inv_C_tilde * K
-            for i in range(4, alpha, 2):
+            for i in range(4, alpha+1, 2):
                 Q = K * inv_C_tilde * Q * inv_C_tilde * K
         else:
             Q = K
-            for i in range(3, alpha, 2):
+            for i in range(3, alpha+1, 2):
                 Q = K * inv_C_tilde * Q * inv_C_tilde * K
         
         Q = tau * Q * tau
@@ -433,7 +433,7 @@ class SphereMeshSPDE(object):
             Q = K * inv_C_tilde * K
             dQdp = dKdp * inv_C_tilde * K + K * inv_C_tilde * dKdp
             
-            for i in range(4, alpha, 2):
+            for i in range(4, alpha+1, 2):
                 
                 dQdp = dKdp * inv_C_tilde * Q * inv_C_tilde * K + \
                        K * inv_C_tilde * dQdp * inv_C_tilde * K + \
@@ -442,7 +442,7 @@ class SphereMeshSPDE(object):
         else:
             Q = K
             dQdp = dKdp
-            for i in range(3, alpha, 2):
+            for i in range(3, alpha+1, 2):
                 
                 dQdp = dKdp * inv_C_tilde * Q * inv_C_tilde * K + \
                        K * inv_C_tilde * dQdp * inv_C_tilde * K + \
-- 
2.43.0


From 5a5c06495f0791d255b9762b31245371b1f25dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:30 +0000
Subject: [PATCH 73/81] fix: quality control applies to whole files of station
 data also without a list of reserved stations

---
 src/eustace/preprocess/fileio/insitu_land.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eustace/preprocess/fileio/insitu_land.py b/src/eustace/preprocess/fileio/insitu_land.py
index e930eea..5b43f6a 100644
--- a/src/eustace/preprocess/fileio/insitu_land.py
+++ b/src/eustace/preprocess/fileio/insitu_land.py
@@ -145,12 +145,12 @@ class ObservationSourceInsituLand(ObservationSource):
             # mask out those stations not used for training the learning algorithm
             measurement.mask = numpy.logical_or(measurement.mask, self.identify_validation_stations())
 
-            # the mask is updated so True areas also represent areas where 
-            # qc flags have failed checks (done above already for a single day)
-            if qc_mask and self.daynumber is None:
-                qc_data_mask = numpy.ma.masked_not_equal(qc_var[:], 0)
-                measurement.mask = numpy.logical_or(
-                                   measurement.mask, qc_data_mask)
+        # the mask is updated so True areas also represent areas where 
+        # qc flags have failed checks (done above already for a single day)
+        if qc_mask and self.daynumber is None:
+            qc_data_mask = numpy.ma.masked_not_equal(qc_var[:], 0)
+            measurement.mask = numpy.logical_or(
+                               measurement.mask, qc_data_mask)
                                    
         # Formulate output
         all_time = numpy.tile(time, (measurement.shape[1], 1)).transpose()
-- 
2.43.0


From 8b80b6ae5e13863dafe45578f33e03cb945d5079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:30 +0000
Subject: [PATCH 74/81] fix: station data without missing values have a mask
 entry for every observation

---
 src/eustace/preprocess/fileio/insitu_land.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/preprocess/fileio/insitu_land.py b/src/eustace/preprocess/fileio/insitu_land.py
index 5b43f6a..596f6e2 100644
--- a/src/eustace/preprocess/fileio/insitu_land.py
+++ b/src/eustace/preprocess/fileio/insitu_land.py
@@ -177,7 +177,7 @@ class ObservationSourceInsituLand(ObservationSource):
             
 
         return Observations(
-            measurement.mask.ravel(),
+            numpy.ma.getmaskarray(measurement).ravel(),
             all_time.ravel(),
             all_stations.ravel(),
             measurement.data.ravel().astype(numpy.float32),
-- 
2.43.0


From c5abd79202ec94f71bf75d7cebd9a4f04a7d208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:30 +0000
Subject: [PATCH 75/81] fix: gridded fields without missing values have a mask
 entry for every grid box

---
 src/eustace/surfaceairmodel/fileio/cubemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/fileio/cubemap.py b/src/eustace/surfaceairmodel/fileio/cubemap.py
index 82dd010..6eaabb0 100644
--- a/src/eustace/surfaceairmodel/fileio/cubemap.py
+++ b/src/eustace/surfaceairmodel/fileio/cubemap.py
@@ -76,7 +76,7 @@ class ObservationSourceCubeMapGrid(ObservationSource, CubeList):
         locallycorrelatederror = [ self.get_field_by_name(mapname).data.data.ravel() for mapname in obsmap.locallycorrelatederror ]
         localcorrelationscale = obsmap.localcorrelationscale
         return Observations(
-            measurement.data.mask.ravel(), 
+            numpy.ma.getmaskarray(measurement.data).ravel(), 
             time, 
             location, 
             measurement.data.data.ravel(), 
-- 
2.43.0


From 989af32aab1b808f80a87dc90558df4b9b3f9a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:30 +0000
Subject: [PATCH 76/81] fix: ship files with a single record can be read

---
 src/eustace/preprocess/fileio/insitu_ocean.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eustace/preprocess/fileio/insitu_ocean.py b/src/eustace/preprocess/fileio/insitu_ocean.py
index 3f7a957..7b0e690 100644
--- a/src/eustace/preprocess/fileio/insitu_ocean.py
+++ b/src/eustace/preprocess/fileio/insitu_ocean.py
@@ -78,6 +78,9 @@ class ObservationSourceInsituOceanHadNMAT2(ObservationSource):
         textfile.seek(0)
         txtdata = numpy.genfromtxt(textfile, delimiter=HadNMAT2Format.FIELDWIDTH, usecols=format.usecols, names=HadNMAT2Format.FIELDS, dtype=HadNMAT2Format.DTYPES, comments=None)
 
+        # a single record comes without a dimension
+        txtdata = numpy.atleast_1d(txtdata)
+
         # build coordinates
         self.coords = numpy.vstack([ 
                 txtdata[HadNMAT2Format.LAT] * HadNMAT2Format.LOCATION_SCALE, 
-- 
2.43.0


From facc824f6464a31f9d56a97395aafaaf31e61c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:30 +0000
Subject: [PATCH 77/81] fix: lakes at different places keep different
 locations, and files with a single record can be read

---
 src/eustace/surfaceairmodel/fileio/lake.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eustace/surfaceairmodel/fileio/lake.py b/src/eustace/surfaceairmodel/fileio/lake.py
index 39ea384..6d09931 100644
--- a/src/eustace/surfaceairmodel/fileio/lake.py
+++ b/src/eustace/surfaceairmodel/fileio/lake.py
@@ -43,10 +43,14 @@ class ObservationSourceLakeReading(ObservationSource):
         # parse tab-delimted format
         txtdata = numpy.genfromtxt(filename, names=True, converters={ObservationSourceLakeReading.COLUMN_DATETIME: ObservationSourceLakeReading.parse_date}, dtype=numpy.float32)
 
+        # a single record comes without a dimension
+        txtdata = numpy.atleast_1d(txtdata)
+
         # signatures for each location so we can spot duplicates
+        # (a degree of latitude must count for more than the full range of longitudes in units of 1/1000000 degree)
         location_signature = \
-            numpy.int64(360 * 1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LAT]) + \
-            numpy.int64(      1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LON])
+            numpy.int64(1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LAT]) * 1000000000 + \
+            numpy.int64(1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LON])
 
         # find duplicate signatures
         unique_signature, unique_indices, self.location_ids = numpy.unique(location_signature, return_index=True, return_inverse=True)
-- 
2.43.0


From 2f2a53cc685c6a1e47dae3880cc10948270fe4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:30 +0000
Subject: [PATCH 78/81] fix: lake files can be prepared for analysis

---
 src/eustace/analysis/preparecorrelationranges.py | 4 ++--
 src/eustace/analysis/preparedailyfixed.py        | 6 ++++++
 src/eustace/analysis/preparelocationlookup.py    | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/preparecorrelationranges.py b/src/eustace/analysis/preparecorrelationranges.py
index 4eff59d..71d6fdd 100644
--- a/src/eustace/analysis/preparecorrelationranges.py
+++ b/src/eustace/analysis/preparecorrelationranges.py
@@ -12,8 +12,8 @@ def run(outputfilename, inputfilename, sourcename, observable):
     sourceclasses.update(preparedailyfixed.SOURCECLASS)
     sourceclasses.update(preparedailymobile.SOURCECLASS)
 
-    # Construct source reader (slightly different constructors for in-situ)
-    if (sourcename == preparedailyfixed.SOURCE_INSITU_LAND) or (sourcename == preparedailymobile.SOURCE_INSITU_OCEAN):
+    # Construct source reader (slightly different constructors for in-situ and lakes)
+    if sourcename in [ preparedailyfixed.SOURCE_INSITU_LAND, preparedailyfixed.SOURCE_SATELLITE_LAKE, preparedailymobile.SOURCE_INSITU_OCEAN ]:
         source = sourceclasses[sourcename](inputfilename)
     else:
         source = sourceclasses[sourcename]([ observable ], inputfilename)
diff --git a/src/eustace/analysis/preparedailyfixed.py b/src/eustace/analysis/preparedailyfixed.py
index 2171441..fcc5017 100644
--- a/src/eustace/analysis/preparedailyfixed.py
+++ b/src/eustace/analysis/preparedailyfixed.py
@@ -40,6 +40,12 @@ def run_day(outputfilename, locationfilename, dailyfilename, processdate, source
         
         # Load it
         dailydata = source.observations(observable, qc_mask)
+    elif sourcename == SOURCE_SATELLITE_LAKE:
+        # lake files have only one observable
+        source = SOURCECLASS[sourcename](dailyfilename)
+
+        # Load it
+        dailydata = source.observations(observable)
     else:
         source = SOURCECLASS[sourcename]([ observable ] , dailyfilename)
 
diff --git a/src/eustace/analysis/preparelocationlookup.py b/src/eustace/analysis/preparelocationlookup.py
index bf52676..00707aa 100644
--- a/src/eustace/analysis/preparelocationlookup.py
+++ b/src/eustace/analysis/preparelocationlookup.py
@@ -11,8 +11,8 @@ def run(outputfilename, inputfilename, sourcename):
 
     print 'Loading: ', inputfilename
 
-    # load observation source (slightly different constructor for in-situ land)
-    if sourcename == preparedailyfixed.SOURCE_INSITU_LAND:
+    # load observation source (slightly different constructor for in-situ land and lakes)
+    if sourcename in [ preparedailyfixed.SOURCE_INSITU_LAND, preparedailyfixed.SOURCE_SATELLITE_LAKE ]:
         source = preparedailyfixed.SOURCECLASS[sourcename](inputfilename)
     else:
         source = preparedailyfixed.SOURCECLASS[sourcename]([ ObservationSource.TMIN ] , inputfilename)
-- 
2.43.0


From f999400b5bca55406a1776fa34d2e2cc79f92671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:45 +0000
Subject: [PATCH 79/81] fix: ice model inputs whose land mask has another size
 than the temperatures are refused

The shape of the land mask was compared with itself, so that a mask of another size was broadcast or failed later.
---
 src/eustace/surfaceairmodel/model_ice_input_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/model_ice_input_processing.py b/src/eustace/surfaceairmodel/model_ice_input_processing.py
index c9124dc..518479e 100644
--- a/src/eustace/surfaceairmodel/model_ice_input_processing.py
+++ b/src/eustace/surfaceairmodel/model_ice_input_processing.py
@@ -67,7 +67,7 @@ class IceSurfaceTemperatureQualityControl(object):
             raise ValueError('surface_temperature_3d matrix shape not consistent with surface_temperature')
         if surface_temperature.shape != Nobs3d.shape[1:3]:
             raise ValueError('Nobs3d matrix shape not consistent with surface_temperature')
-        if land_mask.shape != land_mask.shape:
+        if surface_temperature.shape != land_mask.shape:
             raise ValueError('land_mask matrix shape not consistent with surface_temperature')
         if surface_temperature.shape != sea_ice_fraction.shape:
             raise ValueError('sea_ice_fraction matrix shape not consistent with surface_temperature')
-- 
2.43.0


From cd42aa016cd6950427f06fb2ab142c40b92ca017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:45 +0000
Subject: [PATCH 80/81] fix: ice model accepts uncertainty fields without
 missing values

Fields without any missing value have no mask entry per cell, and looking one up failed.
---
 src/eustace/surfaceairmodel/model_ice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eustace/surfaceairmodel/model_ice.py b/src/eustace/surfaceairmodel/model_ice.py
index d5c003a..1ae02a7 100644
--- a/src/eustace/surfaceairmodel/model_ice.py
+++ b/src/eustace/surfaceairmodel/model_ice.py
@@ -384,9 +384,9 @@ class ModelIceObservableProcessor(object):
         indices = numpy.nonzero(combined_mask.ravel() == False)
 
         # Check necessary uncertainty components present
-        missing = numpy.nonzero(input_uncorrelated_uncertainty.mask.ravel()[indices])[0].tolist() + \
-                  numpy.nonzero(input_synoptically_correlated_uncertainty.mask.ravel()[indices])[0].tolist() + \
-                  numpy.nonzero(input_large_scale_correlated_uncertainty.mask.ravel()[indices])[0].tolist()
+        missing = numpy.nonzero(numpy.ma.getmaskarray(input_uncorrelated_uncertainty).ravel()[indices])[0].tolist() + \
+                  numpy.nonzero(numpy.ma.getmaskarray(input_synoptically_correlated_uncertainty).ravel()[indices])[0].tolist() + \
+                  numpy.nonzero(numpy.ma.getmaskarray(input_large_scale_correlated_uncertainty).ravel()[indices])[0].tolist()
 
         if len(missing):
             sys.stderr.write('WARNING: not all observations have uncertainty information (ignoring those without it).\n')
-- 
2.43.0


From 6dd1e76dfbe18299fbd1ec51f83a7aa1bc4d82c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:45 +0000
Subject: [PATCH 81/81] fix: command line run of the ice model no longer fails
 after writing its outputs

run_day returns nothing, so calling run on its result raised an error.
---
 src/eustace/surfaceairmodel/run_ice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/run_ice.py b/src/eustace/surfaceairmodel/run_ice.py
index f5bac57..65a3433 100644
--- a/src/eustace/surfaceairmodel/run_ice.py
+++ b/src/eustace/surfaceairmodel/run_ice.py
@@ -54,7 +54,7 @@ def main():
     args = parser.parse_args()
 
     # run it
-    run_day(modulename='eustace.surfaceairmodel.run_ice', catalogue_id='(NO CATALOGUE IN USE)', **args.__dict__).run()
+    run_day(modulename='eustace.surfaceairmodel.run_ice', catalogue_id='(NO CATALOGUE IN USE)', **args.__dict__)
 
 if __name__ == '__main__':
     main()
-- 
2.43.0

