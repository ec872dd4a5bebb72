From 14a227edcab60fa5c1b3c8df058de368bdc8d055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 01/88] fix: NamedValues.copy returned an alias of the original
 collection

---
 aviary/utils/named_values.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index 0a38a78..a11bb03 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -95,7 +95,10 @@ class NamedValues(Collection):
         -------
         NamedValues()
         """
-        return copy.copy(self)
+        new = copy.copy(self)
+        # copy.copy only copies the reference; the new instance needs its own collection
+        new._mapping = self._mapping.copy()
+        return new
 
     def deepcopy(self):
         """
-- 
2.43.0


From 284fe9d2bdde20489efd1d8d3511f93fda7980f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 02/88] fix: update or construct AviaryValues from a
 NamedValues collection raised TypeError

---
 aviary/utils/named_values.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index a11bb03..a22fd11 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -231,7 +231,7 @@ class NamedValues(Collection):
 
         set_val = self.set_val
 
-        if isinstance(other, type(self)):
+        if isinstance(other, NamedValues):
             # NamedValues
             other = other._mapping
 
-- 
2.43.0


From 779466afe1df062fe96c6a8ae0a40971c6b2c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 03/88] fix: converting units of an integer array truncated the
 converted values

---
 aviary/utils/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 1ad6e80..1c0e8c3 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -58,6 +58,10 @@ def wrapped_convert_units(val_unit_tuple, new_units):
         else:
             istuple = False
 
+        # converted values may not be integers, don't truncate them
+        if isinstance(value, np.ndarray) and np.issubdtype(value.dtype, np.integer):
+            value = value.astype(float)
+
         for i, item in enumerate(value):
             # Any entry may be none.
             if value[i] is not None:
-- 
2.43.0


From 4d9c3c4d39f6d4c7eec3800794dd29fd2fe872a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 04/88] fix: comparing NamedValues collections that hold numpy
 arrays raised ValueError

---
 aviary/utils/named_values.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index a22fd11..ea173d0 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -20,6 +20,7 @@ import copy
 from collections.abc import Collection
 from typing import Any, Tuple, Union
 
+import numpy as np
 from openmdao.core.constants import _UNDEFINED
 
 from aviary.utils.utils import wrapped_convert_units
@@ -29,6 +30,17 @@ ValueAndUnits = Tuple[Any, Units]
 OptionalValueAndUnits = Union[ValueAndUnits, Any]
 
 
+def _equal(a, b):
+    """Return whether or not two items, which may contain numpy arrays, are equal."""
+    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+        return type(a) is type(b) and np.array_equal(a, b)
+
+    if isinstance(a, (list, tuple)) and type(a) is type(b):
+        return len(a) == len(b) and all(map(_equal, a, b))
+
+    return a is b or a == b
+
+
 class NamedValues(Collection):
     """Define a collection of named values with associated units."""
 
@@ -270,12 +282,13 @@ class NamedValues(Collection):
 
     def __eq__(self, other):
         """Return whether or not this collection is equivalent to another."""
-        collection = self._mapping
+        if isinstance(other, NamedValues):
+            other = other._mapping
 
-        if isinstance(other, type(self)):
-            return collection == other._mapping
+        if not isinstance(other, dict) or self._mapping.keys() != other.keys():
+            return False
 
-        return collection == other
+        return all(_equal(item, other[key]) for key, item in self._mapping.items())
 
     def __contains__(self, key):
         """Return whether or not the named value exists."""
-- 
2.43.0


From ee7c8de5d4b5bcc436d38f2b84c621ec75d9b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 05/88] fix: a list of enum values was silently cut at its
 first unsupported entry

---
 aviary/utils/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 1c0e8c3..4963595 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -132,13 +132,13 @@ def enum_setter(opt_meta, value):
                     # str instead maps to ENUM name
                     return getattr(enum_class, val.upper())
             else:
-                break
+                raise TypeError(f"Value '{val}' not valid for option with types {enum_class}")
+
+        # maintain the same type of iterable
+        if isinstance(value, np.ndarray):
+            values = np.array(values)
         else:
-            # maintain the same type of iterable
-            if isinstance(value, np.ndarray):
-                values = np.array(values)
-            else:
-                values = type(value)(values)
+            values = type(value)(values)
 
         return values
 
-- 
2.43.0


From 1eb791dd2e1999bcf8cd1b5ff72e29b623babdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 06/88] fix: entries of lists were cast to bool, so the list
 ['False'] became [True]

---
 aviary/utils/utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 4963595..a6f677a 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -242,18 +242,21 @@ def cast_type(key, val, meta_data=CoreMetaData):
             cast_val = enum_setter(meta_data[key], cast_val)
         else:
             for _type in expected_types:
+                # Don't cast things to bool, most types will convert
+                if _type is bool and not (
+                    isiterable(cast_val) and all(isinstance(v, (bool, np.bool_)) for v in cast_val)
+                ):
+                    continue
                 try:
                     if isiterable(cast_val):
                         if isinstance(cast_val, np.ndarray):
                             cast_val = np.array([_type(item) for item in cast_val])
                         else:
                             cast_val = type(cast_val)([_type(item) for item in cast_val])
-                    # Don't cast things to bool, most types will convert
-                    elif _type is not bool:
-                        if _type is np.ndarray:
-                            cast_val = np.array([cast_val])
-                        else:
-                            cast_val = _type(cast_val)
+                    elif _type is np.ndarray:
+                        cast_val = np.array([cast_val])
+                    else:
+                        cast_val = _type(cast_val)
                 except (ValueError, TypeError):
                     # try another value in expected_types
                     pass
-- 
2.43.0


From 6734a092d0b8343384cde460303089a018a24732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 07/88] fix: variables without a type requirement in the
 metadata could not be set

---
 aviary/utils/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index a6f677a..e2a47ff 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -225,6 +225,9 @@ def cast_type(key, val, meta_data=CoreMetaData):
     cast_val = deepcopy(val)
 
     expected_types = meta_data[key]['types']
+    if expected_types is None:
+        # MetaData item has no type requirement.
+        return cast_val
     if not isinstance(expected_types, tuple):
         expected_types = (expected_types,)
 
-- 
2.43.0


From 9e9c1e868ff2bf949be1e82fea1c48394f5abb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 08/88] fix: a nested list set to a variable that can be an
 array was replaced by uninitialized arrays

---
 aviary/utils/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index e2a47ff..e3d63ef 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -250,6 +250,9 @@ def cast_type(key, val, meta_data=CoreMetaData):
                     isiterable(cast_val) and all(isinstance(v, (bool, np.bool_)) for v in cast_val)
                 ):
                     continue
+                # Don't cast entries of an iterable to iterables (np.ndarray(item) is uninitialized)
+                if isiterable(cast_val) and _type in (list, tuple, np.ndarray):
+                    continue
                 try:
                     if isiterable(cast_val):
                         if isinstance(cast_val, np.ndarray):
-- 
2.43.0


From c7bc82704522b363ef2309ec522e4386a93408dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 09/88] fix: preprocess_crewpayload raised KeyError for
 fuselage engines without an aircraft type

---
 aviary/utils/preprocessors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index ef2be90..b5492d4 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -614,7 +614,10 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
             if (
                 Aircraft.Engine.NUM_FUSELAGE_ENGINES in aviary_options
                 and num_fulselage_engines > 1
-                and aviary_options.get_val(Aircraft.Design.TYPE) == AircraftTypes.TRANSPORT
+                and (
+                    Aircraft.Design.TYPE not in aviary_options
+                    or aviary_options.get_val(Aircraft.Design.TYPE) == AircraftTypes.TRANSPORT
+                )
             ):
                 HHT = 1
                 if verbosity >= Verbosity.BRIEF:
-- 
2.43.0


From f780609ee5a783e5277c3289b1c0acda2248395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:43 +0000
Subject: [PATCH 10/88] fix: one engine without mount location was left
 unassigned next to fuselage-mounted engines

---
 aviary/utils/preprocessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index b5492d4..9b2b79b 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -940,7 +940,7 @@ def preprocess_propulsion(
                         'Mount location was not defined for all engines of EngineModel '
                         f'<{eng_name}> - unspecified engines are assumed wing-mounted.'
                     )
-            elif num_unspecified_engines == 1 and num_wing_engines != 0:
+            else:
                 num_fuse_engines_all[i] = num_fuse_engines + num_unspecified_engines
                 if verbosity >= Verbosity.VERBOSE:  # VERBOSE, DEBUG
                     warnings.warn(
-- 
2.43.0


From e756c164bc25bbaf9e864a0280aff878c079d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:30 +0000
Subject: [PATCH 11/88] fix: nacelle drag factors could not be given,
 preprocess_propulsion raised TypeError

---
 aviary/utils/preprocessors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 9b2b79b..ce21020 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -783,7 +783,8 @@ def preprocess_propulsion(
     # Vectorize engine variables. Only update variables in update_list that are relevant
     # to engines (defined by _get_engine_variables())
     for var in _get_engine_variables():
-        if var in update_list:
+        # variables that only accept a single value apply to the whole aircraft
+        if var in update_list and meta_data[var]['multivalue']:
             dtype = meta_data[var]['types']
             default_value = meta_data[var]['default_value']
             multivalue = meta_data[var]['multivalue']
-- 
2.43.0


From a9b23f2eba4c81f8d65337340fc3eab945ac28a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:30 +0000
Subject: [PATCH 12/88] fix: default wing locations were nested into the vector
 of wing locations

---
 aviary/utils/preprocessors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index ce21020..4a402cb 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -837,7 +837,10 @@ def preprocess_propulsion(
                         aviary_val = aviary_options.get_val(var, units)
                     # if the variable is not in aviary_options, use default from metadata
                     except (KeyError, IndexError):
-                        vec.append(default_value)
+                        if multidimensional and isiterable(default_value):
+                            vec.extend(default_value)
+                        else:
+                            vec.append(default_value)
                     else:
                         # save value from aviary_options
                         if isiterable(aviary_val) and len(aviary_val) > 1:
-- 
2.43.0


From 1ca3bbb60dbdb6ee314fe4c2de66d6ffd16a3129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 13/88] fix: reading a data file changed the alias dictionary
 of the caller

---
 aviary/utils/csv_data_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 4498bbe..536e8f4 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -68,9 +68,11 @@ def read_data_file(
 
     # prep aliases for case-insensitive matching, with spaces == underscores
     if aliases:
+        # do not change the dictionary of the caller
+        aliases = {
+            key: [names] if isinstance(names, str) else names for key, names in aliases.items()
+        }
         for key in aliases:
-            if isinstance(aliases[key], str):
-                aliases[key] = [aliases[key]]
             aliases[key] = [re.sub('\\s', '_', item).lower() for item in aliases[key]]
 
     with open(filepath, newline=None, encoding='utf-8-sig') as file:
-- 
2.43.0


From 93795d93d7077a73922f95e1bfa4b1fa1b8ff883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 14/88] fix: writing a data file changed the comment list of
 the caller

---
 aviary/utils/csv_data_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 536e8f4..1a09beb 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -257,6 +257,9 @@ def write_data_file(
 
     if type(comments) is str:
         comments = [comments]
+    else:
+        # do not change the list of the caller
+        comments = list(comments)
 
     # strip '#' from comments - np.savetxt() will automatically add them
     for idx, line in enumerate(comments):
-- 
2.43.0


From d95033daad68272aff906596e157fabbef6e4468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 15/88] fix: two data file columns of one variable shifted the
 data of the columns that follow

---
 aviary/utils/csv_data_file.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 1a09beb..1ac5cf5 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -183,6 +183,12 @@ def read_data_file(
                                     )
                             units = default_units
 
+                        if name in header:
+                            # data columns are looked up by name, they can't be told apart
+                            raise ValueError(
+                                f'{filepath}: More than one column was found for <{name}>.'
+                            )
+
                         header[name] = units
                         valid_indices.append(index)
 
-- 
2.43.0


From 16aec22c40358a445c90591099a46035eafb16fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:02 +0000
Subject: [PATCH 16/88] fix: a blank entry in a data file row shifted the data
 of the columns that follow

---
 aviary/utils/csv_data_file.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 1ac5cf5..ec0442e 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -97,6 +97,10 @@ def read_data_file(
 
             # try to convert line_data to float, skip any blank strings
             try:
+                # (at the end of the line, anywhere else data would end up in the wrong column)
+                while len(line_data) > 1 and line_data[-1] == '':
+                    line_data.pop()
+                num_entries = len(line_data)
                 line_data = [float(var) for var in line_data if var != '']
             # data contains things other than floats
             except ValueError:
@@ -206,6 +210,11 @@ def read_data_file(
             # looking for header data from now on
             check_for_header = False
 
+            if len(line_data) != num_entries:
+                raise ValueError(
+                    f'Blank entry found in data file <{filepath}> on line {str(line_count)}'
+                )
+
             # pull out data for each valid header, ignore other columns
             for idx, variable in enumerate(header.keys()):
                 # valid_indices matches dictionary order, pull data from correct column
-- 
2.43.0


From 97e7088156ee79c2f3f48c578e880ea4284708b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:02 +0000
Subject: [PATCH 17/88] fix: units with parentheses in a data file header were
 refused

---
 aviary/utils/csv_data_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index ec0442e..aa57d67 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -111,8 +111,10 @@ def read_data_file(
                     # list of which column goes with each valid header entry
                     valid_indices = []
                     for index in range(len(line_data)):
-                        item = re.split('[(,]', line_data[index])
-                        item = [item[i].strip(') ') for i in range(len(item))]
+                        # units can contain parentheses themselves, so only remove the outer ones
+                        name, _, info = line_data[index].partition('(')
+                        item = [name] + ([info.strip().removesuffix(')')] if info else [])
+                        item = [part.strip() for text in item for part in text.split(',')]
                         # OpenMDAO vars can't have spaces, convert to underscores
                         name = re.sub('\\s', '_', item[0])
                         if aliases:
-- 
2.43.0


From 2ac7508406eb76dc76e1f16e70d3861ab8cf36f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:45 +0000
Subject: [PATCH 18/88] fix: merging variable hierarchies added the variables
 to the hierarchies of the caller

---
 aviary/utils/merge_hierarchies.py | 36 +++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/aviary/utils/merge_hierarchies.py b/aviary/utils/merge_hierarchies.py
index 3453d65..26f1f15 100644
--- a/aviary/utils/merge_hierarchies.py
+++ b/aviary/utils/merge_hierarchies.py
@@ -1,8 +1,28 @@
-import copy
-
 from aviary.utils.compare_hierarchies import compare_hierarchies_to_merge, compare_inner_classes
 
 
+def copy_hierarchy(hierarchy):
+    """
+    Copies a class of a variable hierarchy with all its inner classes.
+
+    Parameters
+    ----------
+    hierarchy : class
+        A class that is all or part of a variable hierarchy.
+
+    Returns
+    -------
+    class
+        A class with the same name, superclasses and attributes. (copy.deepcopy does not copy classes)
+    """
+    attributes = {
+        key: copy_hierarchy(value) if isinstance(value, type) else value
+        for key, value in vars(hierarchy).items()
+        if key not in ('__dict__', '__weakref__')
+    }
+    return type(hierarchy)(hierarchy.__name__, hierarchy.__bases__, attributes)
+
+
 def merge_attributes(base_class, merge_class, base_class_attributes, merge_class_attributes):
     """
     Adds unique attributes of merge_class to base_class.
@@ -46,7 +66,11 @@ def merge_attributes(base_class, merge_class, base_class_attributes, merge_class
     )  # attributes present only in merge_class
 
     for attr in merge_class_unique:
-        setattr(base_class, attr, getattr(merge_class, attr))
+        value = getattr(merge_class, attr)
+        if isinstance(value, type):
+            # further attributes are added to inner classes, do not change the one of merge_class
+            value = copy_hierarchy(value)
+        setattr(base_class, attr, value)
 
     return base_class
 
@@ -187,8 +211,8 @@ def merge_hierarchies(hierarchies_to_merge):
         # checks if the given hierarchy is the first subclass of the hierarchies
         if (len(hierarchy.__mro__) > 2) and (subclass_type is None):
             # gets highest level superclass of the class before "class" itself
-            subclass_type = copy.deepcopy(hierarchy.__mro__[-2])
-            subclass_hierarchy = copy.deepcopy(hierarchy)
+            subclass_type = hierarchy.__mro__[-2]
+            subclass_hierarchy = copy_hierarchy(hierarchy)
         elif len(hierarchy.__mro__) > 2:  # checks if the given hierarchy is a subclass
             if hierarchy.__mro__[-2] != subclass_type:
                 raise ValueError(
@@ -200,7 +224,7 @@ def merge_hierarchies(hierarchies_to_merge):
     ):  # ensure that we build on the subclassed hierarchy if we have one, that way the super class information is not lost
         merged_hierarchy = subclass_hierarchy
     else:
-        merged_hierarchy = copy.deepcopy(hierarchies_to_merge[0])
+        merged_hierarchy = copy_hierarchy(hierarchies_to_merge[0])
 
     for hierarchy in hierarchies_to_merge:
         merged_hierarchy = merge_two_hierarchies(merged_hierarchy, hierarchy)
-- 
2.43.0


From 4c661258207e73cb7c4f816ed65ac326a2019784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:45 +0000
Subject: [PATCH 19/88] fix: metadata with array defaults of different shapes
 were merged as if they were equal

---
 aviary/utils/merge_variable_metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/merge_variable_metadata.py b/aviary/utils/merge_variable_metadata.py
index 619012d..d5bed24 100644
--- a/aviary/utils/merge_variable_metadata.py
+++ b/aviary/utils/merge_variable_metadata.py
@@ -9,7 +9,7 @@ def almost_equal(a, b, rel_tol=1e-8, abs_tol=0.0):
         return np.isclose(a, b, rtol=rel_tol, atol=abs_tol)
 
     if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
-        return np.allclose(a, b, rtol=rel_tol, atol=abs_tol)
+        return a.shape == b.shape and np.allclose(a, b, rtol=rel_tol, atol=abs_tol)
 
     if isinstance(a, dict) and isinstance(b, dict):
         if a.keys() != b.keys():
-- 
2.43.0


From 32a8a440bde45f15b66117d13639b18b2ccc61f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:45 +0000
Subject: [PATCH 20/88] fix: merging hierarchies silently replaced a variable
 by an inner class of the same name

---
 aviary/utils/compare_hierarchies.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aviary/utils/compare_hierarchies.py b/aviary/utils/compare_hierarchies.py
index 7162f45..8e13df8 100644
--- a/aviary/utils/compare_hierarchies.py
+++ b/aviary/utils/compare_hierarchies.py
@@ -96,6 +96,15 @@ def compare_inner_classes(class1, class2, show_all=False):
     class2_inner_classes_set = set(class2_inner_classes)
     overlapping_inner_classes = class1_inner_classes_set & class2_inner_classes_set
 
+    # a name can't be a variable and an inner class at the same time
+    mixed = (class1_vars_set & class2_inner_classes_set) | (
+        class2_vars_set & class1_inner_classes_set
+    )
+    if mixed:
+        raise ValueError(
+            f"You have attempted to merge two variable hierarchies together that have the same name for a variable and an inner class. The offending names in '{class1.__qualname__}' and '{class2.__qualname__}' are {sorted(mixed)}."
+        )
+
     if show_all:
         return (
             overlapping_inner_classes,
-- 
2.43.0


From d9ee4ca50c2d2bf4709320dfa2a17f60f809135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:02 +0000
Subject: [PATCH 21/88] fix: which of several matching built-in models was
 found depended on the file system

---
 aviary/utils/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/functions.py b/aviary/utils/functions.py
index f5aae7c..50940d1 100644
--- a/aviary/utils/functions.py
+++ b/aviary/utils/functions.py
@@ -283,7 +283,8 @@ def get_model(file_name: str, verbosity=Verbosity.BRIEF) -> Path:
     else:
         from glob import glob
 
-        contents = glob(str(get_aviary_resource_path('models') / '**'), recursive=True)
+        # the order of glob depends on the file system, always find the same file
+        contents = sorted(glob(str(get_aviary_resource_path('models') / '**'), recursive=True))
         close_match = []
         for item in contents:
             item = Path(item)
-- 
2.43.0


From 75af0848b585078a739dd0fddbd35e7fd2eebed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:34 +0000
Subject: [PATCH 22/88] fix: add_composite_objective_adv could not be used, its
 expression and connections were invalid

---
 aviary/core/aviary_problem.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index f4b1f42..fcaba28 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1069,26 +1069,37 @@ class AviaryProblem(om.Problem):
         # outputs = ['fuelburn','gross_mass']
         weighted_exprs = []
         connection_names = []
+        obj_inputs = []
+        if len(mission_weights) != len(missions) or len(output_weights) != len(outputs):
+            raise ValueError('One weight must be provided for each mission and each output.')
         output_weights = [float(weight / sum(output_weights)) for weight in output_weights]
         mission_weights = [float(weight / sum(mission_weights)) for weight in mission_weights]
         for mission, mission_weight in zip(missions, mission_weights):
             for output, output_weight in zip(outputs, output_weights):
+                # ExecComp() cannot intake ":"
+                obj_input = f'{mission}_{output}'.replace(':', '_')
+                obj_inputs.append(obj_input)
                 connection_names.append(
-                    [f'composite_function.{mission}_{output}', f'{mission}.{output}']
+                    [f'{mission}.{output}', f'composite_function.{obj_input}']
                 )
-                weighted_exprs.append(f'{mission}_{output}*{output_weight}*{mission_weight}')
+                weighted_exprs.append(f'{obj_input}*{output_weight}*{mission_weight}')
         final_expr = ' + '.join(weighted_exprs)
         # weighted_str looks like:  'model1.fuelburn*0.67*0.5 + model1.gross_mass*0.33*0.5 + model2.fuelburn*0.67*0.5 + model2.gross_mass*0.33*0.5'
 
         # adding composite execComp to super problem
         self.model.add_subsystem(
             'composite_function',
-            om.ExecComp('composite_objective = ' + final_expr, has_diag_partials=True),
+            om.ExecComp(
+                'composite_objective = ' + final_expr,
+                has_diag_partials=True,
+                # get the correct units from the sources
+                **{k: {'units_by_conn': True} for k in obj_inputs},
+            ),
             promotes_outputs=['composite_objective'],
         )
         # connect from inside of the models to the composite objective
-        for target, source in connection_names:
-            self.model.connect(target, source)
+        for source, target in connection_names:
+            self.model.connect(source, target)
         # finally add the objective
         self.model.add_objective('composite_objective', ref=ref)
 
-- 
2.43.0


From a74594507c1316686b04cc72bcd1bcde5d0a26b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 23/88] fix: legacy files with INPROP.GR could not be converted

---
 aviary/utils/fortran_to_aviary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 04d1ae9..c22d105 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -349,9 +349,9 @@ def process_and_store_data(
         vehicle_data['input_values'] = set_value(
             Aircraft.Engine.Gearbox.GEAR_RATIO,
             var_values,
+            data_units,
             vehicle_data['input_values'],
             var_ind=var_ind,
-            units=data_units,
         )
 
     for name in list_of_equivalent_aviary_names:
-- 
2.43.0


From 8ae644e2a96f1881aa3f2b76d2d2da32bf74b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 24/88] fix: legacy booleans accepted any number, and numbers
 when they were set again

---
 aviary/utils/fortran_to_aviary.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index c22d105..7d9fcc3 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -420,12 +420,13 @@ def set_value(var_name, var_value, units=None, value_dict: NamedValues = None, v
         if current_value is not None and isinstance(current_value[0], bool):
             # if a variable is defined as boolean but is read in as number, set as
             # boolean
+            # (keep it a boolean, it can be set again)
             if var_value[0] == 1:
-                var_value = ['True']
+                var_value = [True]
             elif var_value[0] == 0:
-                var_value = ['False']
+                var_value = [False]
             else:
-                ValueError(f'{var_name} allows 0 and 1 only, but it is {var_value[0]}')
+                raise ValueError(f'{var_name} allows 0 and 1 only, but it is {var_value[0]}')
         value_dict.set_val(var_name, var_value, units)
     return value_dict
 
-- 
2.43.0


From 6b9e0297280d6437daf5b7f16655eea1fdbd5338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 25/88] fix: legacy variables were dropped if their name is
 part of a deprecated one

---
 aviary/utils/fortran_to_aviary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 7d9fcc3..b9127ea 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -18,7 +18,6 @@ ARNGE(1) = 3600 !target range in nautical miles
 
 import csv
 import getpass
-import re
 import warnings
 from datetime import datetime
 from pathlib import Path
@@ -320,7 +319,8 @@ def process_and_store_data(
     var_ind = data_units = None
     skip_variable = False
     # skip any variables that shouldn't get converted
-    if re.search(current_namelist + '.' + var_name, str(unused_vars), re.IGNORECASE):
+    full_name = f'{current_namelist}.{var_name}'
+    if full_name.lower() in (unused_var.lower() for unused_var in unused_vars):
         return vehicle_data
     # remove any elements that are empty (caused by trailing commas or extra commas)
     data_list = [dat for dat in data.split(',') if dat != '']
-- 
2.43.0


From 85b2f51c55b87fd4cd6a39240bd23852dd880fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:41 +0000
Subject: [PATCH 26/88] fix: tail sweep and aspect ratio could not be taken
 from the wing, Aircraft.WING does not exist

---
 aviary/utils/fortran_to_aviary.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index b9127ea..37fec25 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -1237,7 +1237,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         Aircraft.HorizontalTail.SWEEP not in input_values
         or input_values.get_val(Aircraft.HorizontalTail.SWEEP, units='deg')[0] < -90.0
     ):
-        if Aircraft.WING.SWEEP in input_values:
+        if Aircraft.Wing.SWEEP in input_values:
             SWEEP = input_values.get_val(Aircraft.Wing.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.HorizontalTail.SWEEP, [SWEEP], 'deg')
 
@@ -1248,7 +1248,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         if Aircraft.HorizontalTail.SWEEP in input_values:
             SWPHT = input_values.get_val(Aircraft.HorizontalTail.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.VerticalTail.SWEEP, [SWPHT], 'deg')
-        elif Aircraft.WING.SWEEP in input_values:
+        elif Aircraft.Wing.SWEEP in input_values:
             SWEEP = input_values.get_val(Aircraft.Wing.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.VerticalTail.SWEEP, [SWEEP], 'deg')
 
@@ -1256,8 +1256,8 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         Aircraft.HorizontalTail.ASPECT_RATIO not in input_values
         or input_values.get_val(Aircraft.HorizontalTail.ASPECT_RATIO)[0] < 0
     ):
-        if Aircraft.WING.ASPECT_RATIO in input_values:
-            AR = input_values.get_val(Aircraft.WING.ASPECT_RATIO)
+        if Aircraft.Wing.ASPECT_RATIO in input_values:
+            AR = input_values.get_val(Aircraft.Wing.ASPECT_RATIO)[0]
             input_values.set_val(Aircraft.HorizontalTail.ASPECT_RATIO, [AR], 'unitless')
 
     if (
-- 
2.43.0


From d8aece7fd757d4d1d0f8429a0d02957e87ec0bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:07 +0000
Subject: [PATCH 27/88] fix: the gear ratio of a legacy file was inverted twice

---
 aviary/utils/fortran_to_aviary.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 37fec25..9624241 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -345,10 +345,9 @@ def process_and_store_data(
 
     # Aviary has a reduction gearbox which is 1/gear ratio of GASP gearbox
     if current_namelist + '.' + var_name == 'INPROP.GR':
-        var_values = [1 / var for var in var_values]
         vehicle_data['input_values'] = set_value(
             Aircraft.Engine.Gearbox.GEAR_RATIO,
-            var_values,
+            [1 / var for var in var_values],
             data_units,
             vehicle_data['input_values'],
             var_ind=var_ind,
@@ -785,13 +784,6 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     # the mission
     input_values.set_val(Aircraft.Engine.GLOBAL_THROTTLE, [True])
 
-    # GEARBOX
-    # Aviary has a reduction gearbox which is 1/gear ratio of GASP gearbox
-    if Aircraft.Engine.Gearbox.GEAR_RATIO in input_values:
-        ratios = input_values.get_val(Aircraft.Engine.Gearbox.GEAR_RATIO)
-        ratios = [1 / val for val in ratios]
-        input_values.set_val(Aircraft.Engine.Gearbox.GEAR_RATIO, ratios, units='unitless')
-
     # CARGO
     if Aircraft.CrewPayload.Design.MAX_CARGO_MASS in input_values:
         if input_values.get_val(Aircraft.CrewPayload.Design.MAX_CARGO_MASS, 'lbm')[0] >= 0:
-- 
2.43.0


From 08f09930a9d0f2179449a2d89bc22660673c5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:07 +0000
Subject: [PATCH 28/88] fix: units given in a legacy file were ignored

---
 aviary/utils/fortran_to_aviary.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 9624241..3868fe2 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -361,14 +361,14 @@ def process_and_store_data(
                 continue
 
             elif name in CoreMetaData:
-                if current_namelist + '.' + var_name in default_values:
-                    data_units = default_values.get_item(current_namelist + '.' + var_name)[1]
-                else:
-                    data_units = None
+                # units that are given win over the ones of the default value
+                units = data_units
+                if not units and current_namelist + '.' + var_name in default_values:
+                    units = default_values.get_item(current_namelist + '.' + var_name)[1]
                 vehicle_data['input_values'] = set_value(
                     name,
                     var_values,
-                    data_units,
+                    units,
                     vehicle_data['input_values'],
                     var_ind=var_ind,
                 )
@@ -396,7 +396,12 @@ def set_value(var_name, var_value, units=None, value_dict: NamedValues = None, v
     If the new variable is part of a list, the current list will be extended if needed.
     """
     if var_name in value_dict:
-        current_value, units = value_dict.get_item(var_name)
+        current_value, current_units = value_dict.get_item(var_name)
+        if var_ind is not None and units and units != current_units:
+            # all elements of a list have the same units
+            var_value = wrapped_convert_units((var_value, units), current_units)
+            units = current_units
+        units = units or current_units
     else:
         current_value = None
         if var_name in CoreMetaData:
-- 
2.43.0


From 3b4118cfa6395871f719a015af126233b9201c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:07 +0000
Subject: [PATCH 29/88] fix: Aviary names in a legacy file were not recognised

---
 aviary/utils/fortran_to_aviary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 3868fe2..8376209 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -475,6 +475,9 @@ def update_name(alternate_names, var_name, verbosity=Verbosity.BRIEF):
 
     # if there are no equivalent variable names, return the original name
     if len(all_equivalent_names) == 0:
+        if var_name.startswith('.') and var_name[1:].lower() in CoreMetaData:
+            # Aviary variables are specified outside of namelists
+            return [var_name[1:].lower()], var_ind
         if verbosity >= Verbosity.VERBOSE:
             print('passing: ', var_name)
         all_equivalent_names = [var_name]
-- 
2.43.0


From 936b540ed5784fdda68c974e80212034db4f2bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:47 +0000
Subject: [PATCH 30/88] fix: some names of legacy files were case-sensitive
 (gear ratio, default units, fact, KNAC, technology factors)

---
 aviary/utils/fortran_to_aviary.py | 61 ++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 8376209..da95349 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -344,7 +344,7 @@ def process_and_store_data(
         var_ind -= fortran_offset
 
     # Aviary has a reduction gearbox which is 1/gear ratio of GASP gearbox
-    if current_namelist + '.' + var_name == 'INPROP.GR':
+    if full_name.upper() == 'INPROP.GR':
         vehicle_data['input_values'] = set_value(
             Aircraft.Engine.Gearbox.GEAR_RATIO,
             [1 / var for var in var_values],
@@ -363,8 +363,9 @@ def process_and_store_data(
             elif name in CoreMetaData:
                 # units that are given win over the ones of the default value
                 units = data_units
-                if not units and current_namelist + '.' + var_name in default_values:
-                    units = default_values.get_item(current_namelist + '.' + var_name)[1]
+                default_name = get_stored_name(full_name, default_values)
+                if not units and default_name in default_values:
+                    units = default_values.get_item(default_name)[1]
                 vehicle_data['input_values'] = set_value(
                     name,
                     var_values,
@@ -387,6 +388,14 @@ def process_and_store_data(
     return vehicle_data
 
 
+def get_stored_name(var_name, value_dict: NamedValues):
+    """Names are not case-sensitive, get the spelling of var_name that is used in value_dict."""
+    for name in value_dict.keys():
+        if name.lower() == var_name.lower():
+            return name
+    return var_name
+
+
 def set_value(var_name, var_value, units=None, value_dict: NamedValues = None, var_ind=None):
     """
     set_value will update the current value of a variable in a value dictionary that contains a value
@@ -832,7 +841,7 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
             input_values.delete(Aircraft.Furnishings.MASS)
 
     unused_values = vehicle_data['unused_values']
-    knac = unused_values.get_item('INGASP.KNAC')[0][0]
+    knac = unused_values.get_item(get_stored_name('INGASP.KNAC', unused_values))[0][0]
     if knac != 2:
         try:
             input_values.delete(Aircraft.Nacelle.AVG_DIAMETER)
@@ -845,8 +854,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Fuselage.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Fuselage.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFFT')[0][0]
-            unused_values.delete('INGASP.FCFFT')
+            tech_name = get_stored_name('INGASP.FCFFT', unused_values)
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -855,8 +865,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.HorizontalTail.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.HorizontalTail.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFHTT')[0][0]
-            unused_values.delete('INGASP.FCFHTT')
+            tech_name = get_stored_name('INGASP.FCFHTT', unused_values)
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -865,8 +876,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Design.INTERFERENCE_DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Design.INTERFERENCE_DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCKIT')[0][0]
-            unused_values.delete('INGASP.FCKIT')
+            tech_name = get_stored_name('INGASP.FCKIT', unused_values)
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -875,8 +887,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Nacelle.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Nacelle.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFNT')[0][0]
-            unused_values.delete('INGASP.FCFNT')
+            tech_name = get_stored_name('INGASP.FCFNT', unused_values)
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -885,8 +898,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Strut.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Strut.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFSTRT')[0][0]
-            unused_values.delete('INGASP.FCFSTRT')
+            tech_name = get_stored_name('INGASP.FCFSTRT', unused_values)
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -895,8 +909,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.VerticalTail.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.VerticalTail.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFVTT')[0][0]
-            unused_values.delete('INGASP.FCFVTT')
+            tech_name = get_stored_name('INGASP.FCFVTT', unused_values)
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -905,8 +920,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Wing.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Wing.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFWT')[0][0]
-            unused_values.delete('INGASP.FCFWT')
+            tech_name = get_stored_name('INGASP.FCFWT', unused_values)
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -1057,7 +1073,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         # TODO revisit this once CLAPP is added to metadata and is no longer skipped by fortran_to_aviary
         unused_values = vehicle_data['unused_values']
         try:
-            CLAPP = unused_values.get_item('TOLIN.CLAPP')[0][0]
+            CLAPP = unused_values.get_item(get_stored_name('TOLIN.CLAPP', unused_values))[0][0]
             CLLDM = 1.69 * CLAPP
         except KeyError:
             CLLDM = 3.0
@@ -1282,8 +1298,9 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
                     )
 
     # if mission-wide fuel flow factor provided, combine into sub and supersonic fuel flow factors
-    if 'MISSIN.fact' in vehicle_data['unused_values']:
-        FACT = vehicle_data['unused_values'].get_item('MISSIN.fact')[0][0]
+    fact_name = get_stored_name('MISSIN.FACT', vehicle_data['unused_values'])
+    if fact_name in vehicle_data['unused_values']:
+        FACT = vehicle_data['unused_values'].get_item(fact_name)[0][0]
         if Aircraft.Engine.SUBSONIC_FUEL_FLOW_SCALER in input_values:
             sub_fuel_flow_fact = input_values.get_val(Aircraft.Engine.SUBSONIC_FUEL_FLOW_SCALER)[0]
             input_values.set_val(
@@ -1300,7 +1317,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
             )
         else:
             input_values.set_val(Aircraft.Engine.SUPERSONIC_FUEL_FLOW_SCALER, [FACT])
-        vehicle_data['unused_values'].delete('MISSIN.fact')
+        vehicle_data['unused_values'].delete(fact_name)
 
     # These variables should be removed if they are zero.
     rem_list = [
-- 
2.43.0


From f5338697c689b8c5071fd2561f22fff124266d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 31/88] fix: propulsion pre-mission crashed when an engine has
 no pre-mission model

---
 aviary/subsystems/propulsion/propulsion_premission.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aviary/subsystems/propulsion/propulsion_premission.py b/aviary/subsystems/propulsion/propulsion_premission.py
index 808196d..99e0e6d 100644
--- a/aviary/subsystems/propulsion/propulsion_premission.py
+++ b/aviary/subsystems/propulsion/propulsion_premission.py
@@ -105,6 +105,12 @@ class PropulsionPreMission(om.Group):
 
         for idx, engine_model in enumerate(engine_models):
             engine = self._get_subsystem(engine_model.name)
+            # pre-mission models are optional
+            if engine is None:
+                input_dict[engine_model.name] = {}
+                output_dict[engine_model.name] = {}
+                continue
+
             # Patterns to identify which inputs/outputs are vectorized and need to be
             # split then re-muxed
             pattern = ['engine:', 'nacelle:']
-- 
2.43.0


From d3796872817ce394a458cd2809fc4f08969c32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 32/88] fix: engine options were not passed to the mission
 models of the engines

---
 aviary/subsystems/propulsion/propulsion_mission.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/propulsion/propulsion_mission.py b/aviary/subsystems/propulsion/propulsion_mission.py
index 2bc160b..fcf4313 100644
--- a/aviary/subsystems/propulsion/propulsion_mission.py
+++ b/aviary/subsystems/propulsion/propulsion_mission.py
@@ -127,14 +127,14 @@ class PropulsionMission(om.Group):
                         num_nodes=nn,
                         aviary_inputs=options,
                         user_options=user_options,
-                        subsystem_options={},
+                        subsystem_options=kwargs,
                     )
                 else:
                     base_comp = engine.build_mission(
                         num_nodes=nn,
                         aviary_inputs=options,
                         user_options=user_options,
-                        subsystem_options={},
+                        subsystem_options=kwargs,
                     )
                     engine_model = om.Group()
 
@@ -142,7 +142,7 @@ class PropulsionMission(om.Group):
                         num_nodes=nn,
                         aviary_inputs=options,
                         user_options=user_options,
-                        subsystem_options={},
+                        subsystem_options=kwargs,
                     )
 
                     input_aliases = [(Dynamic.Vehicle.Propulsion.THROTTLE, 'throttle_max')]
@@ -198,14 +198,14 @@ class PropulsionMission(om.Group):
                     num_nodes=nn,
                     aviary_inputs=options,
                     user_options=user_options,
-                    subsystem_options={},
+                    subsystem_options=kwargs,
                 )
             else:
                 base_comp = engine.build_mission(
                     num_nodes=nn,
                     aviary_inputs=options,
                     user_options=user_options,
-                    subsystem_options={},
+                    subsystem_options=kwargs,
                 )
                 engine_model = om.Group()
 
@@ -213,7 +213,7 @@ class PropulsionMission(om.Group):
                     num_nodes=nn,
                     aviary_inputs=options,
                     user_options=user_options,
-                    subsystem_options={},
+                    subsystem_options=kwargs,
                 )
 
                 input_aliases = [(Dynamic.Vehicle.Propulsion.THROTTLE, 'throttle_max')]
-- 
2.43.0


From 910d7dcc03963ea6a7e8104bc5d88a2a26b33e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:42 +0000
Subject: [PATCH 33/88] fix: propulsion pre-mission failed when only some
 engine types compute an output

---
 .../propulsion/propulsion_premission.py       | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/propulsion/propulsion_premission.py b/aviary/subsystems/propulsion/propulsion_premission.py
index 99e0e6d..c59b538 100644
--- a/aviary/subsystems/propulsion/propulsion_premission.py
+++ b/aviary/subsystems/propulsion/propulsion_premission.py
@@ -2,10 +2,12 @@ import sys
 
 import numpy as np
 import openmdao.api as om
+from openmdao.utils.units import convert_units
 
 from aviary.utils.aviary_values import AviaryValues
 from aviary.variable_info.enums import Verbosity
 from aviary.variable_info.functions import add_aviary_input, add_aviary_option, add_aviary_output
+from aviary.variable_info.variable_meta_data import _MetaData
 from aviary.variable_info.variables import Aircraft, Settings
 
 
@@ -79,6 +81,7 @@ class PropulsionPreMission(om.Group):
         # vectorized inputs/outputs are a problem. Slice all needed vector inputs and pass
         # pre_mission components only the value they need, then mux all the outputs back together.
 
+        aviary_options = self.options['aviary_options']
         engine_models = self.options['engine_models']
         num_engine_type = len(engine_models)
 
@@ -186,10 +189,19 @@ class PropulsionPreMission(om.Group):
                     else:
                         # If this component does not provide the output, pass the existing value for
                         # that index to the mux
-                        self.connect(
-                            output,
-                            'pre_mission_mux.' + output + '_' + str(i),
-                            src_indices=om.slicer[i],
+                        units = unique_outputs[output]
+                        if output in aviary_options:
+                            val = aviary_options.get_val(output, units)[i]
+                        elif output in _MetaData:
+                            meta = _MetaData[output]
+                            default = meta['default_value']
+                            if isinstance(default, (list, tuple, np.ndarray)):
+                                default = default[0]
+                            val = convert_units(default or 0.0, meta['units'], units)
+                        else:
+                            val = 0.0
+                        self.set_input_defaults(
+                            'pre_mission_mux.' + output + '_' + str(i), val=val, units=units
                         )
 
 
-- 
2.43.0


From 830ce2d7e93ad835c7b59f869f481733aa927a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 34/88] fix: propulsion pre-mission only supported one or two
 engine types

---
 aviary/subsystems/propulsion/propulsion_premission.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/propulsion_premission.py b/aviary/subsystems/propulsion/propulsion_premission.py
index c59b538..ea7fab3 100644
--- a/aviary/subsystems/propulsion/propulsion_premission.py
+++ b/aviary/subsystems/propulsion/propulsion_premission.py
@@ -66,7 +66,11 @@ class PropulsionPreMission(om.Group):
         if num_engine_type > 1:
             # Add an empty mux comp, which will be customized to handle all required outputs in
             # configure()
-            self.add_subsystem('pre_mission_mux', subsys=om.MuxComp(), promotes_outputs=['*'])
+            self.add_subsystem(
+                'pre_mission_mux',
+                subsys=om.MuxComp(vec_size=num_engine_type),
+                promotes_outputs=['*'],
+            )
 
         self.add_subsystem(
             'propulsion_sum',
-- 
2.43.0


From 0799a04d1b2a5c8f90139e34df9f89048f55e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 35/88] fix: an engine received the options of another one
 whose name is the beginning of its own

---
 aviary/variable_info/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aviary/variable_info/functions.py b/aviary/variable_info/functions.py
index 1d8cf9d..52c3d74 100644
--- a/aviary/variable_info/functions.py
+++ b/aviary/variable_info/functions.py
@@ -607,5 +607,7 @@ def setup_model_options(
                 val, units = aviary_inputs.get_item(key)
                 opts[key] = (val[idx], units)
 
-        path = f'{prefix}*propulsion.{eng_name}*'
+        # the engine itself and everything in it, but no other engine whose name starts the same
+        path = f'{prefix}*propulsion.{eng_name}'
         prob.model_options[path] = opts
+        prob.model_options[f'{path}.*'] = opts
-- 
2.43.0


From 0e2d5a03287773dc06dc713bdf86a8a3fb7bb20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 36/88] fix: every propeller of an aircraft used the number of
 blades, data file and installation loss of the first one

---
 .../propulsion/propeller/propeller_performance.py     |  5 ++++-
 aviary/variable_info/functions.py                     | 11 ++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/propulsion/propeller/propeller_performance.py b/aviary/subsystems/propulsion/propeller/propeller_performance.py
index f4c74e0..32035aa 100644
--- a/aviary/subsystems/propulsion/propeller/propeller_performance.py
+++ b/aviary/subsystems/propulsion/propeller/propeller_performance.py
@@ -421,7 +421,10 @@ class PropellerPerformance(om.Group):
 
         if data is None:
             try:
-                prop_file_path = aviary_options.get_val(Aircraft.Engine.Propeller.DATA_FILE)
+                # the option holds the entry for this engine, aviary_options those of all engines
+                prop_file_path = options[Aircraft.Engine.Propeller.DATA_FILE]
+                if prop_file_path is None:
+                    prop_file_path = aviary_options.get_val(Aircraft.Engine.Propeller.DATA_FILE)
             except KeyError:
                 use_propeller_map = False
             else:
diff --git a/aviary/variable_info/functions.py b/aviary/variable_info/functions.py
index 52c3d74..f32e838 100644
--- a/aviary/variable_info/functions.py
+++ b/aviary/variable_info/functions.py
@@ -587,6 +587,9 @@ def setup_model_options(
         # EngineDeck required options), so custom multiengine works
         opt_names = [
             Aircraft.Engine.Motor.DATA_FILE,
+            Aircraft.Engine.Propeller.COMPUTE_INSTALLATION_LOSS,
+            Aircraft.Engine.Propeller.DATA_FILE,
+            Aircraft.Engine.Propeller.NUM_BLADES,
             Aircraft.Engine.SUBSONIC_FUEL_FLOW_SCALER,
             Aircraft.Engine.SUPERSONIC_FUEL_FLOW_SCALER,
             Aircraft.Engine.FUEL_FLOW_SCALER_CONSTANT_TERM,
@@ -601,7 +604,13 @@ def setup_model_options(
         opts = {}
         for key in opt_names:
             if key in aviary_inputs:
-                opts[key] = aviary_inputs.get_item(key)[0][idx]
+                val = aviary_inputs.get_item(key)[0]
+                if isinstance(val, (list, tuple, np.ndarray)):
+                    val = val[idx]
+                # options are declared with standard python types
+                if isinstance(val, np.generic):
+                    val = val.item()
+                opts[key] = val
         for key in opt_names_units:
             if key in aviary_inputs:
                 val, units = aviary_inputs.get_item(key)
-- 
2.43.0


From e645a3e1fbb7b14276214ceb4007d0453e8db912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 37/88] fix: setting one element of a converted variable
 changed the variables given by the same legacy name

The variables of one legacy name share the list of its values, which was changed in place.
---
 aviary/utils/fortran_to_aviary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index da95349..092ddc0 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -422,6 +422,8 @@ def set_value(var_name, var_value, units=None, value_dict: NamedValues = None, v
     if var_ind is not None:
         # if an index is specified, use it, otherwise store the input as the whole value
         if isinstance(current_value, list):
+            # other variables can have been given the same list
+            current_value = list(current_value)
             max_ind = len(current_value) - 1
             if var_ind > max_ind:
                 current_value.extend((var_ind - max_ind) * [0])
-- 
2.43.0


From 564616e018e2e6ded98d7251818c4e10b4837629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 38/88] fix: units containing a slash were mangled on the line
 that ends a namelist

---
 aviary/utils/fortran_to_aviary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 092ddc0..31382fc 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -217,7 +217,8 @@ def parse_input_file(
                 current_tag = line.lstrip()[0]
                 current_namelist = line.split(current_tag)[1].split()[0]
             elif (line.lstrip()[0] == current_tag) or (line.rstrip()[-1] == '/'):
-                line = line.replace('/', '')
+                # only the last slash ends the namelist, others can belong to units
+                line = line.rstrip('/')
                 terminate_namelist = True
 
             number_of_variables = line.count('=')
-- 
2.43.0


From 42ad4253a284e9896347d9a654a06f20669d3fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 39/88] fix: PhaseBuilder.from_phase_info changed the caller's
 phase_info and required user_options

Plain values in the caller's dictionary were replaced by tuples, and a phase without user_options raised a KeyError.
---
 aviary/mission/phase_builder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aviary/mission/phase_builder.py b/aviary/mission/phase_builder.py
index bd14bc2..684f724 100644
--- a/aviary/mission/phase_builder.py
+++ b/aviary/mission/phase_builder.py
@@ -324,12 +324,12 @@ class PhaseBuilder(ABC):
         """
         # loop over user_options dict entries
         # if the value is not a tuple, wrap it in a tuple with the second entry of 'unitless'
-        for key, value in phase_info['user_options'].items():
-            if not isinstance(value, tuple):
-                phase_info['user_options'][key] = (value, 'unitless')
+        # The caller's dictionary is left as it is.
+        user_options = {}
+        for key, value in phase_info.get('user_options', {}).items():
+            user_options[key] = value if isinstance(value, tuple) else (value, 'unitless')
 
         subsystem_options = phase_info.get('subsystem_options', {})  # TODO: aero info?
-        user_options = phase_info.get('user_options', ())
         initial_guesses = AviaryValues(phase_info.get('initial_guesses', ()))
 
         # TODO some of these may be purely programming API hooks, rather than for use
-- 
2.43.0


From de4656306676a8e52b48d945ca021da9d6fad739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 40/88] fix: scaling of phase variables was zero or ignored

constraint_ref of the final value of a state was not used, and a final value or control limits of zero
gave a ref of zero.
---
 aviary/mission/phase_builder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aviary/mission/phase_builder.py b/aviary/mission/phase_builder.py
index 684f724..430f2ae 100644
--- a/aviary/mission/phase_builder.py
+++ b/aviary/mission/phase_builder.py
@@ -438,14 +438,14 @@ class PhaseBuilder(ABC):
         if final is not None:
             constraint_ref, _ = options[f'{name}_constraint_ref']
             if constraint_ref is None:
-                # If unspecified, final is a good value for it.
-                constraint_ref = final
+                # If unspecified, final is a good value for it, unless it is zero.
+                constraint_ref = final if final != 0.0 else 1.0
             self.phase.add_boundary_constraint(
                 target,
                 loc='final',
                 equals=final,
                 units=units,
-                ref=final,
+                ref=constraint_ref,
             )
 
     def add_control(
@@ -483,7 +483,9 @@ class PhaseBuilder(ABC):
             # This has not been moved from default, so find a good value.
             candidates = [x for x in (bounds[0], bounds[1], initial, final) if x is not None]
             if len(candidates) > 0:
-                ref = np.max(np.abs(np.array(candidates)))
+                magnitude = np.max(np.abs(np.array(candidates)))
+                if magnitude > 0.0:
+                    ref = magnitude
 
         # Try to only use arguments that aren't None because dymos' default is _undefined.
         extra_options = {}
-- 
2.43.0


From ec7e5c5f768eba7fb95318dbe49c8111a669b440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 41/88] fix: a phase with both no_climb and no_descent could
 not be built

---
 aviary/mission/flight_phase_builder.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/aviary/mission/flight_phase_builder.py b/aviary/mission/flight_phase_builder.py
index c6c986e..75a1679 100644
--- a/aviary/mission/flight_phase_builder.py
+++ b/aviary/mission/flight_phase_builder.py
@@ -348,11 +348,15 @@ class FlightPhaseBase(PhaseBuilder):
         # Add Constraints #
         ###################
 
-        if no_descent and Dynamic.Mission.ALTITUDE_RATE not in constraints:
-            phase.add_path_constraint(Dynamic.Mission.ALTITUDE_RATE, lower=0.0, ref=20.0)
-
-        if no_climb and Dynamic.Mission.ALTITUDE_RATE not in constraints:
-            phase.add_path_constraint(Dynamic.Mission.ALTITUDE_RATE, upper=0.0, ref=20.0)
+        if (no_descent or no_climb) and Dynamic.Mission.ALTITUDE_RATE not in constraints:
+            # Both limits go in one constraint, as a variable can have only one path constraint.
+            limits = {}
+            if no_descent:
+                limits['lower'] = 0.0
+            if no_climb:
+                limits['upper'] = 0.0
+
+            phase.add_path_constraint(Dynamic.Mission.ALTITUDE_RATE, ref=20.0, **limits)
 
         required_available_climb_rate, units = user_options['required_available_climb_rate']
 
-- 
2.43.0


From 1ee3f18486fc1da34a426a81ce31fc9e98f3ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 42/88] fix: options of the initial time were dropped for
 phases whose start is not connected

The initial time of the first reserve phase and of phases without time_initial_direct_link is not an
input from the previous phase, its bounds and ref apply.
---
 aviary/mission/energy_state_problem_configurator.py | 8 ++++++--
 aviary/mission/two_dof_problem_configurator.py      | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/aviary/mission/energy_state_problem_configurator.py b/aviary/mission/energy_state_problem_configurator.py
index 5dd67c7..9830ddd 100644
--- a/aviary/mission/energy_state_problem_configurator.py
+++ b/aviary/mission/energy_state_problem_configurator.py
@@ -182,8 +182,12 @@ class EnergyStateProblemConfigurator(ProblemConfiguratorBase):
         fix_initial = initial is not None
         fix_duration = duration is not None
 
-        # All follow-on phases.
-        input_initial = phase_idx > 0
+        # All follow-on phases whose initial time is connected to the previous phase.
+        input_initial = (
+            phase_idx > 0
+            and user_options['time_initial_direct_link']
+            and phase_name not in aviary_group.reserve_phases[:1]
+        )
 
         # Figure out resonable refs if they aren't given.
         if initial_ref == 1.0:
diff --git a/aviary/mission/two_dof_problem_configurator.py b/aviary/mission/two_dof_problem_configurator.py
index 4867706..bd8bdeb 100644
--- a/aviary/mission/two_dof_problem_configurator.py
+++ b/aviary/mission/two_dof_problem_configurator.py
@@ -257,7 +257,12 @@ class TwoDOFProblemConfigurator(ProblemConfiguratorBase):
             # Why are we overriding this?
             duration_ref = 0.5 * (duration_bounds[0] + duration_bounds[1])
 
-        input_initial = phase_idx > 0
+        # All follow-on phases whose initial time is connected to the previous phase.
+        input_initial = (
+            phase_idx > 0
+            and user_options['time_initial_direct_link']
+            and phase_name not in aviary_group.reserve_phases[:1]
+        )
         extra_args = {}
 
         if fix_initial or input_initial:
-- 
2.43.0


From 6481e954131535204d661a8d6ce97107309b7df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 43/88] fix: a start or end value of zero was not treated as
 given when phases are linked

---
 aviary/core/aviary_group.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 7f56f0d..1e42228 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1042,7 +1042,11 @@ class AviaryGroup(om.Group):
 
                 pin1 = phase_info1.get(f'{var}_final', (None, None))[0]
                 pin2 = phase_info2.get(f'{var}_initial', (None, None))[0]
-                if pin1 and pin2:
+                if var == 'time' and pin2 == 0.0:
+                    # Phases may say that the clock starts at zero and still be linked.
+                    pin2 = None
+
+                if pin1 is not None and pin2 is not None:
                     # When both ends are pinned, no need to add a duplicate constraint.
                     continue
 
@@ -1059,7 +1063,7 @@ class AviaryGroup(om.Group):
                     # Controls cannot connect directly.
                     connect = False
 
-                elif pin2:
+                elif pin2 is not None:
                     # Pinned front can't take input.
                     connect = False
 
-- 
2.43.0


From 38034a52e89c96db60eb0f363931bc70b9408b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 44/88] fix: the second of two consecutive analytic phases
 started at the initial distance and time of the first

---
 aviary/core/aviary_group.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 1e42228..04b69bd 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1025,11 +1025,13 @@ class AviaryGroup(om.Group):
                 # Don't link to first reserve phase.
                 continue
 
-            # Find common vars across 1-2 boundary
-            common = vars1.intersection(vars2)
             upstream_analytic = [item for item in vars1 if item.startswith('initial_')]
             downstream_analytic = [item for item in vars2 if item.startswith('initial_')]
 
+            # Find common vars across 1-2 boundary
+            # The start input of an analytic phase joins to the end of the previous phase below.
+            common = vars1.intersection(vars2).difference(upstream_analytic)
+
             # Sort because of MPI
             for var in sorted(common):
                 # Controls: True or False, everything else: None
@@ -1082,7 +1084,7 @@ class AviaryGroup(om.Group):
             # Sort because of MPI
             for var in sorted(downstream_analytic):
                 source = var.removeprefix('initial_')
-                if source not in vars1:
+                if source not in vars1 and var not in upstream_analytic:
                     continue
 
                 if source == 'time':
-- 
2.43.0


From 530b8d650779eecd801bc88aac1414da5076a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 45/88] fix: the start of a phase after an analytic phase
 ignored its own options when linked

The optimize option of an unrelated variable was used, and a start value given by the user was connected.
---
 aviary/core/aviary_group.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 04b69bd..e8363c4 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1095,6 +1095,7 @@ class AviaryGroup(om.Group):
 
                 kwargs = {}
                 if not connect:
+                    opt2 = phase_info2.get(f'{source}_optimize', None)
                     kwargs = self._find_scaling(
                         source, phase1, phase_info1, phase2, phase_info2, opt2
                     )
@@ -1120,6 +1121,16 @@ class AviaryGroup(om.Group):
                     key = f'{target}_direct_link'
                 connect = connect_directly and phase_info2.get(key, connect_directly)
 
+                opt2 = phase_info2.get(f'{target}_optimize', None)
+                pin2 = phase_info2.get(f'{target}_initial', (None, None))[0]
+                if target == 'time' and pin2 == 0.0:
+                    # Phases may say that the clock starts at zero and still be linked.
+                    pin2 = None
+
+                if opt2 is False or pin2 is not None:
+                    # Fixed controls and a pinned front can't take input.
+                    connect = False
+
                 kwargs = {}
                 if not connect:
                     kwargs = self._find_scaling(
-- 
2.43.0


From 1a1848c83c5fc76a5cfa1aeb454279300e2e0bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 46/88] fix: flight conditions of an engine deck with one row,
 or more rows or altitudes at the last one, were packed wrong

---
 aviary/subsystems/propulsion/engine_deck.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 777e3bc..e5f4569 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -1491,7 +1491,7 @@ class EngineDeck(EngineModel):
 
                 if not self.global_throttle:
                     # normalize throttles for this flight condition from 0 to 1
-                    throttle_list = normalize(packed_throttle[M, A][: data_indices[M, A] + 1])
+                    throttle_list = normalize(packed_throttle[M, A][: data_indices[M, A]])
                     normalized_throttle = np.append(normalized_throttle, throttle_list)
                     throttle_min = np.append(throttle_min, min(throttle_list))
                     throttle_max = np.append(throttle_max, max(throttle_list))
@@ -1499,7 +1499,7 @@ class EngineDeck(EngineModel):
                 if not self.global_hybrid_throttle and self.use_hybrid_throttle:
                     # normalize hybrid throttles for this flight condition
                     hybrid_throttle_list = _hybrid_throttle_norm(
-                        packed_hybrid_throttle[M, A][: data_indices[M, A] + 1]
+                        packed_hybrid_throttle[M, A][: data_indices[M, A]]
                     )
                     normalized_hybrid_throttle = np.append(
                         normalized_hybrid_throttle, hybrid_throttle_list
@@ -1602,8 +1602,7 @@ class EngineDeck(EngineModel):
                     # skip point if there is no data
                     continue
 
-                # number of data points is index+1
-                for D in range(data_indices[M, A] + 1):
+                for D in range(data_indices[M, A]):
                     for key in self.data:
                         unpacked_data = self.data[key]
                         if idx < len(unpacked_data):
@@ -1647,8 +1646,8 @@ class EngineDeck(EngineModel):
 
             if math.isclose(mach_num, curr_mach, abs_tol=self.mach_tol):
                 if math.isclose(alt, curr_alt, abs_tol=self.alt_tol):
-                    data_indices[mach_count - 1, alt_count - 1] = data_count
                     data_count += 1
+                    data_indices[mach_count - 1, alt_count - 1] = data_count
 
                 else:
                     # new altitude for this Mach number, count it
@@ -1707,8 +1706,9 @@ class EngineDeck(EngineModel):
                 data_indices[mach_count - 1, alt_count - 1] = 1
 
         self.mach_max_count = mach_count
-        self.alt_max_count = max_alt_count
-        self.data_max_count = max_data_count
+        # include the last Mach number and the last flight condition
+        self.alt_max_count = max(max_alt_count, alt_count)
+        self.data_max_count = max(max_data_count, data_count)
         self.data_indices = data_indices.astype(int)
 
 
-- 
2.43.0


From 70211e0107f3b6c3a4aad742c093a82d04653079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 47/88] fix: net thrust of an engine deck was refused when it
 agrees with gross thrust and ram drag instead of when it does not

---
 aviary/subsystems/propulsion/engine_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index e5f4569..08bf192 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -468,7 +468,7 @@ class EngineDeck(EngineModel):
             # prefer using directly provided values for net thrust vs. calculating
             if THRUST in engine_variables:
                 res = abs(net_thrust_calc - original_data[THRUST])
-                if np.any(self.thrust_tol > res):
+                if np.any(res > self.thrust_tol):
                     raise UserWarning(
                         'Provided net thrust is not equal to difference (within tolerance) between '
                         f'gross thrust and ram drag in {self.error_message}'
-- 
2.43.0


From 06180ccd24856460c37488c79435d6e31edd1a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 48/88] fix: an engine deck without required columns was
 accepted

---
 aviary/subsystems/propulsion/engine_deck.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 08bf192..a7df8df 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -528,16 +528,11 @@ class EngineDeck(EngineModel):
         # check that all required variables are present in engine data
         if not self.required_variables.issubset(engine_variables):
             # gather all missing required variables
-            missing_variables = set()
-            for var in engine_variables:
-                if var in self.required_variables:
-                    missing_variables.add(var)
+            missing_variables = self.required_variables.difference(engine_variables)
 
-            # if missing_variables is not empty
-            if not missing_variables:
-                raise UserWarning(
-                    f'Required variables {missing_variables} are missing from {self.error_message}'
-                )
+            raise UserWarning(
+                f'Required variables {missing_variables} are missing from {self.error_message}'
+            )
 
         # removes data points with negative thrust if requested
         if self.get_val(Aircraft.Engine.IGNORE_NEGATIVE_THRUST):
-- 
2.43.0


From 037b79fd8038a7dbec251ae17a513584c0be0395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 49/88] fix: negative thrust of an engine deck could not be
 ignored unless the deck has every column

---
 aviary/subsystems/propulsion/engine_deck.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index a7df8df..45533cb 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -534,12 +534,6 @@ class EngineDeck(EngineModel):
                 f'Required variables {missing_variables} are missing from {self.error_message}'
             )
 
-        # removes data points with negative thrust if requested
-        if self.get_val(Aircraft.Engine.IGNORE_NEGATIVE_THRUST):
-            keep_idx = np.where(data[THRUST] >= 0)
-            for key in data:
-                data[key] = data[key][keep_idx]
-
         self.model_length = len(self.data[ALTITUDE])
 
         # Set all unused variables to default value of zero
@@ -547,6 +541,14 @@ class EngineDeck(EngineModel):
             if not len(data[key]):
                 data[key] = np.zeros(self.model_length)
 
+        # removes data points with negative thrust if requested
+        if self.get_val(Aircraft.Engine.IGNORE_NEGATIVE_THRUST):
+            keep_idx = np.where(data[THRUST] >= 0)
+            for key in data:
+                data[key] = data[key][keep_idx]
+
+            self.model_length = len(self.data[ALTITUDE])
+
         # set flags using updated engine_variables
         self._set_variable_flags()
 
-- 
2.43.0


From df40b5f8c80d247a461341c68246fe8d7c55c649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 50/88] fix: an engine deck built from data in memory changed
 that data and could not be flown

---
 aviary/subsystems/propulsion/engine_deck.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 45533cb..ea56acf 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -24,6 +24,7 @@ dependent_options : dict
 
 import math
 import warnings
+from copy import deepcopy
 
 import numpy as np
 import openmdao.api as om
@@ -360,6 +361,10 @@ class EngineDeck(EngineModel):
             raw_data, self.inputs, self.outputs = read_data_file(data_file, aliases=aliases)
 
         else:
+            # the data provided belongs to the caller, work on a copy
+            raw_data = deepcopy(raw_data)
+            self.inputs, self.outputs = [], []
+
             # run provided data through aliases
             # create dict of what names to change, modify outside of loop
             alias_dict = {}
-- 
2.43.0


From f0a61cec49d9e43b0f8874279ed80383bc5a9786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 51/88] fix: limits of a global hybrid throttle were those
 before normalization

---
 aviary/subsystems/propulsion/engine_deck.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index ea56acf..11a2464 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -1522,11 +1522,9 @@ class EngineDeck(EngineModel):
         # store normalized hybrid throttle data
         if self.use_hybrid_throttle:
             if self.global_hybrid_throttle:
-                norm_hybrid_throttle = _hybrid_throttle_norm(self.data[HYBRID_THROTTLE])
-
+                self.data[HYBRID_THROTTLE] = _hybrid_throttle_norm(self.data[HYBRID_THROTTLE])
                 self.hybrid_throttle_min = min(self.data[HYBRID_THROTTLE])
                 self.hybrid_throttle_max = max(self.data[HYBRID_THROTTLE])
-                self.data[HYBRID_THROTTLE] = norm_hybrid_throttle
             else:
                 self.data[HYBRID_THROTTLE] = normalized_hybrid_throttle
                 self.hybrid_throttle_min = hybrid_throttle_min
-- 
2.43.0


From 64beba8c0c456b76a98f81e80cb9fafa574217e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 52/88] fix: corrected shaft power was dropped from an engine
 deck at some verbosities only

---
 aviary/subsystems/propulsion/engine_deck.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 11a2464..f60c197 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -515,16 +515,13 @@ class EngineDeck(EngineModel):
         # consistency, as that requires information not available during setup (freestream air temp
         # and pressure). Instead, we must trust the source and assume either data set is valid and
         # can be used.
-        if (
-            SHAFT_POWER in engine_variables
-            and SHAFT_POWER_CORRECTED in engine_variables
-            and self.get_val(Settings.VERBOSITY) >= Verbosity.BRIEF
-        ):
-            warnings.warn(
-                'Both corrected and uncorrected shaft horsepower are present in '
-                f'{self.error_message}. The two cannot be validated for consistency, and only '
-                'uncorrected shaft power will be used.'
-            )
+        if SHAFT_POWER in engine_variables and SHAFT_POWER_CORRECTED in engine_variables:
+            if self.get_val(Settings.VERBOSITY) >= Verbosity.BRIEF:
+                warnings.warn(
+                    'Both corrected and uncorrected shaft horsepower are present in '
+                    f'{self.error_message}. The two cannot be validated for consistency, and only '
+                    'uncorrected shaft power will be used.'
+                )
             engine_variables.pop(SHAFT_POWER_CORRECTED)
             self.data.pop(SHAFT_POWER_CORRECTED)
 
-- 
2.43.0


From d834df0aa502380ab053e016dad8d9598346fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 53/88] fix: reserve fuel of a mission with a single reserve
 phase was not measured from its start

---
 aviary/core/aviary_group.py                | 26 +++++++++++++---------
 aviary/subsystems/energy/energy_builder.py | 22 +++++++++---------
 aviary/subsystems/subsystem_builder.py     |  1 +
 3 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index e8363c4..6322144 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1291,16 +1291,22 @@ class AviaryGroup(om.Group):
                 aviary_inputs=self.aviary_inputs, mission_info=self.mission_info
             ).items():
                 for mission_variable_name, variable_data in var_mapping.items():
-                    post_mission_variable_names = variable_data['post_mission_name']
-                    src_indices = variable_data.get('src_indices', None)
-                    if not isinstance(post_mission_variable_names, list):
-                        post_mission_variable_names = [post_mission_variable_names]
-
-                    for post_mission_var_name in post_mission_variable_names:
-                        # Remove possible prefix before a `.`, like <external_subsystem_name>.<var_name>"
-                        mvn_basename = mission_variable_name.rpartition('.')[-1]
-                        src_name = f'traj.{phase_name}.mission_bus_variables.{mvn_basename}'
-                        self.connect(src_name, post_mission_var_name, src_indices=src_indices)
+                    # A list connects several parts of the same mission variable.
+                    if not isinstance(variable_data, list):
+                        variable_data = [variable_data]
+
+                    # Remove possible prefix before a `.`, like <external_subsystem_name>.<var_name>"
+                    mvn_basename = mission_variable_name.rpartition('.')[-1]
+                    src_name = f'traj.{phase_name}.mission_bus_variables.{mvn_basename}'
+
+                    for connection in variable_data:
+                        post_mission_variable_names = connection['post_mission_name']
+                        src_indices = connection.get('src_indices', None)
+                        if not isinstance(post_mission_variable_names, list):
+                            post_mission_variable_names = [post_mission_variable_names]
+
+                        for post_mission_var_name in post_mission_variable_names:
+                            self.connect(src_name, post_mission_var_name, src_indices=src_indices)
 
     def add_design_variables(self, problem_type: ProblemType = None, verbosity=None):
         """
diff --git a/aviary/subsystems/energy/energy_builder.py b/aviary/subsystems/energy/energy_builder.py
index 7a98e05..705d7b5 100644
--- a/aviary/subsystems/energy/energy_builder.py
+++ b/aviary/subsystems/energy/energy_builder.py
@@ -81,18 +81,20 @@ class CoreEnergyBuilder(EnergyBuilder):
         }
 
         if reserve_phases:
-            post_mission_bus[reserve_phases[0]] = {
-                f'mass': {
-                    'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_initial',
-                    'src_indices': [0],
-                }
+            reserve_start = {
+                'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_initial',
+                'src_indices': [0],
             }
-            post_mission_bus[reserve_phases[-1]] = {
-                f'mass': {
-                    'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_final',
-                    'src_indices': [-1],
-                }
+            reserve_end = {
+                'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_final',
+                'src_indices': [-1],
             }
+            if len(reserve_phases) == 1:
+                # Both ends of the same phase are needed.
+                post_mission_bus[reserve_phases[0]] = {'mass': [reserve_start, reserve_end]}
+            else:
+                post_mission_bus[reserve_phases[0]] = {'mass': reserve_start}
+                post_mission_bus[reserve_phases[-1]] = {'mass': reserve_end}
 
         return post_mission_bus
 
diff --git a/aviary/subsystems/subsystem_builder.py b/aviary/subsystems/subsystem_builder.py
index 7130a34..e7f985b 100644
--- a/aviary/subsystems/subsystem_builder.py
+++ b/aviary/subsystems/subsystem_builder.py
@@ -523,6 +523,7 @@ class SubsystemBuilder(ABC):
                 Names of the input variable to be connected in the post-mission subsystem
             - 'src_indices': int or list of ints or tuple of ints or int ndarray or Iterable or None
                 Indices of the mission variable for connection
+            A value may also be a list of such dictionaries.
         """
         return {}
 
-- 
2.43.0


From 0b973427f84c23c6b0ec5a2ac357742b2bf7a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 54/88] fix: add_aviary_group() built but never raised its
 error for a problem that is not a multi-mission

---
 aviary/core/aviary_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index fcaba28..db58204 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -293,7 +293,7 @@ class AviaryProblem(om.Problem):
         verbosity = self._override_verbosity(verbosity)
 
         if self.problem_type is not ProblemType.MULTI_MISSION:
-            ValueError(
+            raise ValueError(
                 'add_aviary_group() should only be called when ProblemType is MULTI_MISSION.'
             )
 
-- 
2.43.0


From 5bfcf79b47dfe0d671e6eba182c3f17585b6d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 55/88] fix: reference value given for the hybrid objective was
 ignored

---
 aviary/core/aviary_problem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index db58204..035274e 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -727,7 +727,6 @@ class AviaryProblem(om.Problem):
         # Dictionary for default reference values
         default_ref_values = {
             'mass': 5e4,
-            'hybrid_objective': 5e4,
             'fuel_burned': 1e4,
             'fuel': 1e4,
         }
@@ -751,7 +750,7 @@ class AviaryProblem(om.Problem):
 
             elif objective_type == 'hybrid_objective':
                 self._add_hybrid_objective(self.model.mission_info)
-                self.model.add_objective('obj_comp.obj')
+                self.model.add_objective('obj_comp.obj', ref=ref)
 
             elif objective_type == 'fuel_burned':
                 self.model.add_objective(Mission.FUEL_MASS, ref=ref)
-- 
2.43.0


From 1c32c12632dc57d1b7bf749eea8dc44962390f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 56/88] fix: verbosity given in an input deck was always
 replaced by the default

---
 aviary/utils/process_input_decks.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index 044ecbe..de2837a 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -44,7 +44,7 @@ problem_types = {
 }
 
 
-def create_vehicle(vehicle_deck='', meta_data=CoreMetaData, verbosity=Verbosity.BRIEF):
+def create_vehicle(vehicle_deck='', meta_data=CoreMetaData, verbosity=None):
     """
     Creates and initializes a vehicle with default or specified parameters. It sets up the aircraft values
     and initial guesses based on the input from the vehicle deck.
@@ -67,9 +67,6 @@ def create_vehicle(vehicle_deck='', meta_data=CoreMetaData, verbosity=Verbosity.
     (aircraft_values, initialization_guesses): (tuple)
         Returns a tuple containing aircraft values and initial guesses.
     """
-    if verbosity is None:
-        verbosity = Verbosity.BRIEF
-
     aircraft_values = AviaryValues()
 
     # TODO remove all hardcoded GASP values here, find appropriate place for them
@@ -107,7 +104,9 @@ def create_vehicle(vehicle_deck='', meta_data=CoreMetaData, verbosity=Verbosity.
                 initialization_guesses[key.removeprefix('initialization_guesses:')] = val
         aircraft_values.update(vehicle_deck)
     else:
-        vehicle_deck = get_path(vehicle_deck, verbosity)
+        vehicle_deck = get_path(
+            vehicle_deck, Verbosity.BRIEF if verbosity is None else Verbosity(verbosity)
+        )
         aircraft_values, initialization_guesses = parse_inputs(
             vehicle_deck=vehicle_deck,
             aircraft_values=aircraft_values,
-- 
2.43.0


From d3541c3148aa2edaed0ea5754bbdb355f08e9132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 57/88] fix: numbers in exponent notation without a decimal
 point were read as text

---
 aviary/utils/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/functions.py b/aviary/utils/functions.py
index 50940d1..4fefa07 100644
--- a/aviary/utils/functions.py
+++ b/aviary/utils/functions.py
@@ -113,7 +113,7 @@ def convert_strings_to_data(input_string):
             # if the value is a number store it as a float or an int as appropriate
             # BUG this returns floats that can be converted to int (e.g. 1.0) as an
             # int (1), even if the variable requires floats
-            value_list[ii] = int(dat) if '.' not in dat else float(dat)
+            value_list[ii] = float(dat) if '.' in dat or 'e' in dat.lower() else int(dat)
         except ValueError:
             # store value as a boolean if it is a string that represents True or False
             if dat.lower() == 'true':
-- 
2.43.0


From 4cae98e2ac4ef34a40d6a34d87de7bf99e3b6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 58/88] fix: blanks inside the brackets of a list were kept as
 part of its values

---
 aviary/utils/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/functions.py b/aviary/utils/functions.py
index 4fefa07..842a456 100644
--- a/aviary/utils/functions.py
+++ b/aviary/utils/functions.py
@@ -108,7 +108,7 @@ def convert_strings_to_data(input_string):
         value_list = input_string
 
     for ii, dat in enumerate(input_string):
-        dat = dat.strip('[]')
+        dat = dat.strip(' []')
         try:
             # if the value is a number store it as a float or an int as appropriate
             # BUG this returns floats that can be converted to int (e.g. 1.0) as an
-- 
2.43.0


From 529174fdc5fdc62214de25614b3ac8023d65e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 59/88] fix: only value of a line, or end of a bracketed list,
 was taken for its units in an input deck

---
 aviary/utils/process_input_decks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index de2837a..fa6dbc8 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -174,7 +174,7 @@ def parse_inputs(
             if len(data_list) == 0:
                 continue
             var_name = data_list.pop(0)
-            if valid_units(data_list[-1]):
+            if len(data_list) > 1 and not data_list[-1].endswith(']') and valid_units(data_list[-1]):
                 # if the last element is a unit, remove it from the list and update the variable's units
                 data_units = data_list.pop()
 
-- 
2.43.0


From e01b8791c883c19dcbfb1d87f039337dd202e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 60/88] fix: text without a value in an input deck crashed
 instead of being ignored

---
 aviary/utils/process_input_decks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index fa6dbc8..2008b67 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -174,6 +174,8 @@ def parse_inputs(
             if len(data_list) == 0:
                 continue
             var_name = data_list.pop(0)
+            if len(data_list) == 0 and var_name not in meta_data and var_name not in guess_names:
+                continue  # text that is not a variable and has no value
             if len(data_list) > 1 and not data_list[-1].endswith(']') and valid_units(data_list[-1]):
                 # if the last element is a unit, remove it from the list and update the variable's units
                 data_units = data_list.pop()
-- 
2.43.0


From 72e2371d5feba7126925f439c2bb6a177cb9e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 61/88] fix: first line of an input deck saved with a byte
 order mark was ignored

---
 aviary/utils/process_input_decks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index 2008b67..7670263 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -156,7 +156,7 @@ def parse_inputs(
 
     guess_names = list(initialization_guesses.keys())
 
-    with open(vehicle_deck, newline='') as f_in:
+    with open(vehicle_deck, newline='', encoding='utf-8-sig') as f_in:
         for line in f_in:
             data_units = None
 
-- 
2.43.0


From 65fc1886e31794abc26bb2b08c7b3450385eb61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 62/88] fix: user's strut and fold masses never reached the
 wing mass of aircraft without struts or folds

---
 aviary/subsystems/mass/gasp_based/wing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/subsystems/mass/gasp_based/wing.py b/aviary/subsystems/mass/gasp_based/wing.py
index a7dca01..978e254 100644
--- a/aviary/subsystems/mass/gasp_based/wing.py
+++ b/aviary/subsystems/mass/gasp_based/wing.py
@@ -711,6 +711,8 @@ class WingMassGroup(om.Group):
         ]
         connected_inputs_total = [
             Aircraft.Wing.MASS_SCALER,
+            Aircraft.Strut.MASS,
+            Aircraft.Wing.FOLD_MASS,
             'isolated_wing_mass',
         ]
 
-- 
2.43.0


From 23aa110ecaf58bbe97a6f8b7b23d02754766a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 63/88] fix: outputs named through an alias in a parent group
 ignored overrides

---
 aviary/variable_info/functions.py | 35 +++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/aviary/variable_info/functions.py b/aviary/variable_info/functions.py
index f32e838..2e3c5a6 100644
--- a/aviary/variable_info/functions.py
+++ b/aviary/variable_info/functions.py
@@ -378,6 +378,41 @@ def override_aviary_vars(
         else:
             group.promotes(comp.name, inputs=in_var_names, outputs=comp_promoted_outputs)
 
+    # Outputs that only get their Aviary name in a parent group of their component (promoted with an
+    # alias) are not covered above. They are given a new name where that group is promoted from.
+    aliased_outputs = set()
+    for sub in sorted(group.system_iter(typ=om.Group), key=lambda s: -s.pathname.count('.')):
+        renamed_outputs = []
+        for abs_name, meta in sub.get_io_metadata(
+            iotypes=('output',), return_rel_names=False
+        ).items():
+            name = meta['prom_name']
+            if (
+                not name.startswith(('aircraft:', 'mission:'))
+                or abs_name.endswith(f'.{name}')
+                or abs_name in aliased_outputs
+            ):
+                continue
+            aliased_outputs.add(abs_name)
+
+            if name in external_overrides:
+                renamed_outputs.append((name, f'EXTERNAL_SUBSYSTEM_OVERRIDE:{name}'))
+                external_overridden_outputs.append(name)
+
+            elif name in aviary_inputs:
+                val, units = aviary_inputs.get_item(name)
+                if name in all_inputs:
+                    group.set_input_defaults(name, val=val, units=units)
+
+                renamed_outputs.append((name, f'AIRCRAFT_DATA_OVERRIDE:{name}'))
+                overridden_outputs.append(name)
+
+        if renamed_outputs:
+            rel_path = sub.pathname[len(group.pathname) :].lstrip('.')
+            parent_path = rel_path.rpartition('.')[0]
+            parent = group._get_subsystem(parent_path) if parent_path else group
+            parent.promotes(sub.name, outputs=renamed_outputs)
+
     if overridden_outputs:
         if aviary_inputs.get_val(Settings.VERBOSITY).value >= Verbosity.VERBOSE:  # VERBOSE, DEBUG
             print('\nThe following variables have been overridden in the aircraft definition:')
-- 
2.43.0


From 12362033ccac4d414d60c458a909fa781c279ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 64/88] fix: overrides report named nested outputs after their
 path

---
 aviary/interface/reports.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/interface/reports.py b/aviary/interface/reports.py
index d7c874f..37228c0 100644
--- a/aviary/interface/reports.py
+++ b/aviary/interface/reports.py
@@ -655,7 +655,7 @@ def _overridden_variables_group_report(prob, group, mission_name, f):
         #   with the output of another component
         if 'EXTERNAL_SUBSYSTEM_OVERRIDE' in prom_name:
             abs_name = resolver.absnames(prom_name, 'output')[0]
-            aircraft_variable_name = abs_name.split('.')[-1]
+            aircraft_variable_name = prom_name.split('_OVERRIDE:', 1)[1]
             if aircraft_variable_name not in external_variables:
                 external_variables[aircraft_variable_name] = abs_name
             continue
@@ -663,7 +663,7 @@ def _overridden_variables_group_report(prob, group, mission_name, f):
         #   calculated value that we are discarding
         if 'AIRCRAFT_DATA_OVERRIDE' in prom_name:
             abs_name = resolver.absnames(prom_name, 'output')[0]
-            aircraft_variable_name = abs_name.split('.')[-1]
+            aircraft_variable_name = prom_name.split('_OVERRIDE:', 1)[1]
             aviary_metadata = group.meta_data
             metadata = aviary_metadata.get(aircraft_variable_name)
             try:
-- 
2.43.0


From db93a022ef506578239aea536c5756ede3bead6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 65/88] fix: overrides report crashed on overrides given as a
 list

---
 aviary/interface/reports.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/interface/reports.py b/aviary/interface/reports.py
index 37228c0..1155f2b 100644
--- a/aviary/interface/reports.py
+++ b/aviary/interface/reports.py
@@ -689,8 +689,10 @@ def _overridden_variables_group_report(prob, group, mission_name, f):
         f.write('| ------ |-------| ----- |\n')
         non_external_overridden_variables.sort(key=lambda x: x[0])
         for aircraft_variable_name, val, units in non_external_overridden_variables:
-            if isinstance(val, np.ndarray):
-                valstring = np.array2string(val, formatter={'float_kind': lambda x: f'{x:.3g}'})
+            if isinstance(val, (list, tuple, np.ndarray)):
+                valstring = np.array2string(
+                    np.asarray(val), formatter={'float_kind': lambda x: f'{x:.3g}'}
+                )
             else:
                 valstring = f'{val:.3g}'
             f.write(f'| {aircraft_variable_name} | {valstring} | {units} |\n')
-- 
2.43.0


From 042e650bbf4edeb81c6d8704731d250df5006c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 66/88] fix: accept whole-number initial guesses in two-dof
 missions

---
 aviary/mission/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/utils.py b/aviary/mission/utils.py
index be66c25..b3bbd1f 100644
--- a/aviary/mission/utils.py
+++ b/aviary/mission/utils.py
@@ -93,8 +93,8 @@ def process_guess_var(val, key, phase):
     val : float or array of floats
         The processed guess value(s) to be used in the optimization problem.
     """
-    # Check if val is not a single float
-    if not isinstance(val, float):
+    # Check if val is not a single number
+    if not isinstance(val, (int, float, np.number)):
         # If val is an array of values
         if len(val) > 1:
             # Get the shape of the val array
-- 
2.43.0


From efa0879a0597f8985b83e2887464a351a04f0dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 67/88] fix: derive each missing time guess of an energy-state
 phase

---
 .../energy_state_problem_configurator.py      | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/aviary/mission/energy_state_problem_configurator.py b/aviary/mission/energy_state_problem_configurator.py
index 9830ddd..3984a97 100644
--- a/aviary/mission/energy_state_problem_configurator.py
+++ b/aviary/mission/energy_state_problem_configurator.py
@@ -521,18 +521,19 @@ class EnergyStateProblemConfigurator(ProblemConfiguratorBase):
 
             guess_dict['mach'] = ([mach_initial, mach_final], 'unitless')
 
-        if 'time' not in guess_dict:
-            # if time not in initial guesses, use the midpoints of any declared bounds.
-            initial = wrapped_convert_units(options['time_initial'], 's')
-            if initial is None:
-                initial_bounds = wrapped_convert_units(options['time_initial_bounds'], 's')
-                initial = np.mean(initial_bounds[0])
-            duration = wrapped_convert_units(options['time_duration'], 's')
-            if duration is None:
-                duration_bounds = wrapped_convert_units(options['time_duration_bounds'], 's')
-                duration = np.mean(duration_bounds[0])
-
-            guess_dict['time'] = ([initial, duration], 's')
+        # The start of fixed-duration phases may be missing from the time guess.
+        time_guess, time_units = guess_dict.get('time', ((None, None), 's'))
+        time_guess = list(time_guess)
+        for i, stem in enumerate(['time_initial', 'time_duration']):
+            if time_guess[i] is None:
+                time_guess[i] = wrapped_convert_units(options[stem], time_units)
+            if time_guess[i] is None:
+                # if time not in initial guesses, use any declared bounds.
+                bounds = wrapped_convert_units(options[f'{stem}_bounds'], time_units)
+                if bounds is not None:
+                    time_guess[i] = bounds[0]
+
+        guess_dict['time'] = (time_guess, time_units)
 
         for guess_key, guess_data in guess_dict.items():
             val, units = guess_data
-- 
2.43.0


From adb85024c75844d22e40237883877649e501a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 68/88] fix: keep the initial guesses of energy-state and
 solved two-dof phases apart

---
 aviary/mission/energy_state/phases/energy_phase.py          | 2 ++
 aviary/mission/solved_two_dof/phases/solved_twodof_phase.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/aviary/mission/energy_state/phases/energy_phase.py b/aviary/mission/energy_state/phases/energy_phase.py
index 4572ae4..bfe90e2 100644
--- a/aviary/mission/energy_state/phases/energy_phase.py
+++ b/aviary/mission/energy_state/phases/energy_phase.py
@@ -10,6 +10,8 @@ from aviary.mission.initial_guess_builders import InitialGuessIntegrationVariabl
 # - self.meta_data, with cls.default_meta_data customization point
 @register
 class EnergyPhase(FlightPhaseBase):
+    _initial_guesses_meta_data_ = FlightPhaseBase._initial_guesses_meta_data_.copy()
+
     default_ode_class = EnergyStateODE
 
 
diff --git a/aviary/mission/solved_two_dof/phases/solved_twodof_phase.py b/aviary/mission/solved_two_dof/phases/solved_twodof_phase.py
index a9d7208..81414ee 100644
--- a/aviary/mission/solved_two_dof/phases/solved_twodof_phase.py
+++ b/aviary/mission/solved_two_dof/phases/solved_twodof_phase.py
@@ -188,6 +188,8 @@ class SolvedTwoDOFPhaseOptions(AviaryOptionsDictionary):
 class SolvedTwoDOFPhase(FlightPhaseBase):
     """A phase builder for a two-degrees-of-freedom (2DOF) phase."""
 
+    _initial_guesses_meta_data_ = FlightPhaseBase._initial_guesses_meta_data_.copy()
+
     default_options_class = SolvedTwoDOFPhaseOptions
 
     def build_phase(self, aviary_options: AviaryValues = None):
-- 
2.43.0


From 54139e891ef1abd5e2a166f89b7bbb28cb63df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 69/88] fix: lists of enumeration members could not be loaded
 from a saved deck

---
 aviary/utils/aviary_inputs_to_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/aviary_inputs_to_csv.py b/aviary/utils/aviary_inputs_to_csv.py
index 7c0b638..de504ba 100644
--- a/aviary/utils/aviary_inputs_to_csv.py
+++ b/aviary/utils/aviary_inputs_to_csv.py
@@ -20,7 +20,7 @@ def save_to_csv_file(filename, aviary_inputs):
         for name, (value, units) in sorted(aviary_inputs):
             output = [name]
             if isinstance(value, (np.ndarray, list, tuple)):
-                output.extend(value)
+                output.extend(val.value if isinstance(val, Enum) else val for val in value)
             elif isinstance(value, Enum):
                 output.append(value.value)
             else:
-- 
2.43.0


From 79de0c33c074df0169460e7bc7c9e0d4281c90ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 70/88] fix: text values that read like numbers or booleans
 were rewritten when loading a deck

---
 aviary/utils/process_input_decks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index 7670263..c922938 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -180,7 +180,11 @@ def parse_inputs(
                 # if the last element is a unit, remove it from the list and update the variable's units
                 data_units = data_list.pop()
 
-            var_value = convert_strings_to_data(data_list)
+            if var_name in meta_data and meta_data[var_name]['types'] is str:
+                # text stays as it is written, even if it reads like a number or a boolean
+                var_value = [dat.strip(' []') for dat in data_list]
+            else:
+                var_value = convert_strings_to_data(data_list)
             # If var_value is length 1 list and is not supposed to be a list, pull out
             # individual value. Otherwise, convert list to numpy array
             if len(var_value) <= 1:
-- 
2.43.0


From bd9783d3af94f6667ffab7feeda6cf5ab0fbef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 71/88] fix: saving results changed lists of enumeration
 members and paths, and loading them lost entries

---
 aviary/core/aviary_problem.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 035274e..80b2311 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1917,14 +1917,17 @@ class AviaryProblem(om.Problem):
                     if type_value is np.ndarray:
                         value = value.tolist()
 
-                    # Lists are fine except if they contain enums or Paths
-                    if type_value is list:
-                        if isinstance(value[0], Enum):
-                            for i in range(len(value)):
-                                value[i] = value[i].name
-                        elif isinstance(value[0], Path):
-                            for i in range(len(value)):
-                                value[i] = str(value[i])
+                    # Lists are fine except if they contain enums or Paths. The list in
+                    # aviary_inputs must not change.
+                    if isinstance(value, (list, tuple)):
+                        value = [
+                            item.name
+                            if isinstance(item, Enum)
+                            else str(item)
+                            if isinstance(item, Path)
+                            else item
+                            for item in value
+                        ]
 
                     # Enums and Paths need converting to a string
                     if isinstance(value, Enum):
@@ -2019,8 +2022,10 @@ def _read_sizing_json(json_filename, meta_data, verbosity=Verbosity.BRIEF):
 
         # Initialize some flags to identify enums
         is_enum = False
+        types = meta_data[var_name]['types'] if var_name in meta_data else None
+        is_enum_type = isinstance(types, type) and issubclass(types, Enum)
 
-        if var_type == "<class 'list'>":
+        if is_enum_type and var_type == "<class 'list'>":
             # check if the list contains enums
             for i in range(len(var_values)):
                 if isinstance(var_values[i], str):
@@ -2056,6 +2061,12 @@ def _read_sizing_json(json_filename, meta_data, verbosity=Verbosity.BRIEF):
         # Check if the variable is in meta data
         if var_name in meta_data.keys():
             try:
+                # each entry of a list of enums is saved by its name
+                if is_enum_type and isinstance(var_values, list) and '<enum' not in var_type:
+                    var_values = [
+                        types[val] if val in types.__members__ else val for val in var_values
+                    ]
+
                 aviary_inputs.set_val(var_name, var_values, units=var_units, meta_data=meta_data)
 
             except BaseException:
-- 
2.43.0


From f5fc6b858a519149039f74fad0a130a16e84a93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 72/88] fix: saved results held the takeoff gross mass as
 design gross mass

---
 aviary/core/aviary_problem.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 80b2311..8ef2a92 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1905,9 +1905,8 @@ class AviaryProblem(om.Problem):
                 # Get the gross mass value from the sizing problem and add it to input list
 
                 if name == Mission.GROSS_MASS or name == Aircraft.Design.GROSS_MASS:
-                    Mission_Summary_GROSS_MASS_val = self.get_val(Mission.GROSS_MASS, units=units)
-                    Mission_Summary_GROSS_MASS_val_list = Mission_Summary_GROSS_MASS_val.tolist()
-                    value = Mission_Summary_GROSS_MASS_val_list[0]
+                    gross_mass_val_list = self.get_val(name, units=units).tolist()
+                    value = gross_mass_val_list[0]
 
                 else:
                     # there are different data types we need to handle for conversion to json format
-- 
2.43.0


From cfa1d62cb462ae0d17df8702c667826c898d4eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 73/88] fix: off-design missions changed the mission of the
 caller and of the original problem

---
 aviary/core/aviary_problem.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 8ef2a92..4a79948 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1492,9 +1492,12 @@ class AviaryProblem(om.Problem):
 
         if phase_info is None:
             # model phase_info only contains mission information, recreate the whole thing here
-            phase_info = self.model.mission_info.copy()
-            phase_info['pre_mission'] = self.model.pre_mission_info.copy()
-            phase_info['post_mission'] = self.model.post_mission_info.copy()
+            phase_info = dict(self.model.mission_info)
+            phase_info['pre_mission'] = self.model.pre_mission_info
+            phase_info['post_mission'] = self.model.post_mission_info
+
+        # the mission is adjusted below, leave the caller's or the original problem's untouched
+        phase_info = deepcopy(phase_info)
 
         # update passenger count and cargo masses
         mass_method = inputs.get_val(Settings.MASS_METHOD)
@@ -1545,7 +1548,7 @@ class AviaryProblem(om.Problem):
                     )
                 mission_range = self.get_val(Mission.RANGE, units='NM')[0]
 
-            phase_info['post_mission']['target_range'] = (
+            phase_info.setdefault('post_mission', {})['target_range'] = (
                 mission_range,
                 'nmi',
             )
@@ -1709,9 +1712,9 @@ class AviaryProblem(om.Problem):
         equations_of_motion = self.model.aviary_inputs.get_val(Settings.EQUATIONS_OF_MOTION)
         if equations_of_motion is EquationsOfMotion.ENERGY_STATE:
             # make a copy of the phase_info to avoid modifying the original.
-            phase_info = self.model.mission_info.copy()
-            phase_info['pre_mission'] = self.model.pre_mission_info.copy()
-            phase_info['post_mission'] = self.model.post_mission_info.copy()
+            phase_info = deepcopy(self.model.mission_info)
+            phase_info['pre_mission'] = deepcopy(self.model.pre_mission_info)
+            phase_info['post_mission'] = deepcopy(self.model.post_mission_info)
             # This checks if the 'cruise' phase exists, then automatically extends duration bounds
             # of the cruise stage to allow for the longer off design missions.
             if phase_info['cruise']:
-- 
2.43.0


From c71a7f7fe779a50655b375218541358cfb7f35e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 74/88] fix: off-design missions ignored a passenger total
 given without seat classes

---
 aviary/core/aviary_problem.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 4a79948..f868170 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1502,6 +1502,18 @@ class AviaryProblem(om.Problem):
         # update passenger count and cargo masses
         mass_method = inputs.get_val(Settings.MASS_METHOD)
 
+        # The inherited seat class counts would win over a total that was requested on its own
+        if (
+            mass_method is FLOPS
+            and num_pax is not None
+            and num_first_class is None
+            and num_business is None
+            and num_economy is None
+        ):
+            inputs.set_val(Aircraft.CrewPayload.NUM_FIRST_CLASS, 0)
+            inputs.set_val(Aircraft.CrewPayload.NUM_BUSINESS_CLASS, 0)
+            inputs.set_val(Aircraft.CrewPayload.NUM_ECONOMY_CLASS, 0)
+
         # Sanity check passenger counts - cover specific edge case that preprocessors won't catch
         # Since we inherit mission pax count from sizing mission, we need to overwrite it
         if (
-- 
2.43.0


From 36cf9835bff8a6de1f7b33b6d9958d5d9c739796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 75/88] fix: off-design missions with custom equations of
 motion could not be loaded

---
 aviary/core/aviary_problem.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index f868170..05305a4 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1487,8 +1487,8 @@ class AviaryProblem(om.Problem):
         if equations_of_motion is not None:
             inputs.set_val(Settings.EQUATIONS_OF_MOTION, equations_of_motion)
 
-        if problem_configurator is not None:
-            off_design_prob.model.configurator = problem_configurator
+        if problem_configurator is None:
+            problem_configurator = type(self.model.configurator)
 
         if phase_info is None:
             # model phase_info only contains mission information, recreate the whole thing here
@@ -1566,7 +1566,12 @@ class AviaryProblem(om.Problem):
             )
 
         # reset the AviaryProblem to run the new mission
-        off_design_prob.load_inputs(inputs, phase_info, verbosity=verbosity)
+        off_design_prob.load_inputs(
+            inputs,
+            phase_info,
+            problem_configurator=problem_configurator,
+            verbosity=verbosity,
+        )
 
         # Update inputs that are specific to problem type
         # Some OFF_DESIGN_MIN_FUEL problem changes had to happen before load_inputs, all OFF_DESIGN_MAX_RANGE problem
-- 
2.43.0


From c8b7f51da037ef6852d4c53ec39ec2aee59bc36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 76/88] fix: off-design missions with SLSQP did not inherit the
 iteration limit

---
 aviary/core/aviary_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 05305a4..7fddb91 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1620,7 +1620,7 @@ class AviaryProblem(om.Problem):
             elif optimizer == 'IPOPT':
                 max_iter = self.driver.opt_settings['max_iter']
             elif optimizer == 'SLSQP':
-                max_iter = self.driver.opt_settings['maxiter']
+                max_iter = self.driver.options['maxiter']
             else:
                 max_iter = None
         except KeyError:
-- 
2.43.0


From 60c4286c801a8e7de9507c66b4b80e46369bce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 77/88] fix: payload-range studies without a max-fuel mission
 crashed

---
 aviary/core/aviary_problem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 7fddb91..97f98d9 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1865,6 +1865,7 @@ class AviaryProblem(om.Problem):
                 max_fuel_pyld_range_prob = ferry_range_prob
                 payload_3 = payload_4
                 range_3 = range_4
+                fuel_3 = fuel_4
 
             # Check if OFF_DESIGN_MAX_RANGE missions ran successfully before writing to csv file
             # If both missions ran successfully, writes the payload/range data to a csv file
-- 
2.43.0


From 2f81da39d1e477cf57c1d80095f24a8f3d994ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 78/88] fix: payload-range studies needed a cruise phase with
 an upper duration bound

---
 aviary/core/aviary_problem.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 97f98d9..1cb656f 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1734,14 +1734,15 @@ class AviaryProblem(om.Problem):
             phase_info['post_mission'] = deepcopy(self.model.post_mission_info)
             # This checks if the 'cruise' phase exists, then automatically extends duration bounds
             # of the cruise stage to allow for the longer off design missions.
-            if phase_info['cruise']:
-                min_duration = phase_info['cruise']['user_options']['time_duration_bounds'][0][0]
-                max_duration = phase_info['cruise']['user_options']['time_duration_bounds'][0][1]
-                cruise_units = phase_info['cruise']['user_options']['time_duration_bounds'][1]
-
-                phase_info['cruise']['user_options'].update(
-                    {'time_duration_bounds': ((min_duration, 2 * max_duration), cruise_units)}
-                )
+            if 'cruise' in phase_info:
+                cruise_options = phase_info['cruise']['user_options']
+                bounds, cruise_units = cruise_options['time_duration_bounds']
+                min_duration, max_duration = bounds
+                if max_duration is not None:
+                    cruise_options['time_duration_bounds'] = (
+                        (min_duration, 2 * max_duration),
+                        cruise_units,
+                    )
 
             # TODO Verify that previously run point is actually max payload/fuel point, and if not
             #      run off-design mission for that point
-- 
2.43.0


From f5f368324e109a22ebe4da4f98c8f65786ab22ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 79/88] fix: payload-range studies of unconverged or
 multi-mission problems were only refused when verbose

---
 aviary/core/aviary_problem.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 1cb656f..887daa3 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1712,16 +1712,18 @@ class AviaryProblem(om.Problem):
         """
         verbosity = self._override_verbosity(verbosity)
 
-        if not self.result.success and verbosity > Verbosity.QUIET:
-            warnings.warn(
-                'Payload Range Diagrams cannot be generated for unconverged Aviary problems.'
-            )
+        if not self.result.success:
+            if verbosity > Verbosity.QUIET:
+                warnings.warn(
+                    'Payload Range Diagrams cannot be generated for unconverged Aviary problems.'
+                )
             return ()
-        elif self.problem_type is ProblemType.MULTI_MISSION and verbosity > Verbosity.QUIET:
-            warnings.warn(
-                'Payload Range Diagrams currently cannot be generated for aircraft designed '
-                'using multimission capability.'
-            )
+        elif self.problem_type is ProblemType.MULTI_MISSION:
+            if verbosity > Verbosity.QUIET:
+                warnings.warn(
+                    'Payload Range Diagrams currently cannot be generated for aircraft designed '
+                    'using multimission capability.'
+                )
             return ()
 
         # Off-design missions are not tested with 2DOF missions.
-- 
2.43.0


From f1520dfc28c9445251983af293378e72b79dc65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:37 +0000
Subject: [PATCH 80/88] fix: off-design missions lost the engine models and
 external subsystems of the aircraft

---
 aviary/core/aviary_problem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 887daa3..e4a9494 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1570,8 +1570,13 @@ class AviaryProblem(om.Problem):
             inputs,
             phase_info,
             problem_configurator=problem_configurator,
+            meta_data=self.meta_data,
             verbosity=verbosity,
         )
+        # the aircraft includes the engine models and subsystems loaded into the original problem
+        off_design_prob.load_external_subsystems(
+            self.model.engine_models + self.model.external_subsystems, verbosity=verbosity
+        )
 
         # Update inputs that are specific to problem type
         # Some OFF_DESIGN_MIN_FUEL problem changes had to happen before load_inputs, all OFF_DESIGN_MAX_RANGE problem
-- 
2.43.0


From 96d8b064ee367fe87758f153c7da8c2bbbda9b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:36 +0000
Subject: [PATCH 81/88] fix: minimum-fuel off-design missions crashed when
 asked to fill the fuel tanks

---
 aviary/core/aviary_problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index e4a9494..948c8fb 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1671,7 +1671,8 @@ class AviaryProblem(om.Problem):
                 ref=val,
             )
 
-        if fill_fuel:
+        # takeoff gross mass is always a design variable of OFF_DESIGN_MIN_FUEL missions
+        if fill_fuel and problem_type is not ProblemType.OFF_DESIGN_MIN_FUEL:
             off_design_prob.model.add_design_var(
                 Mission.GROSS_MASS,
                 lower=0,
-- 
2.43.0


From ee177c6169c7cf833b84538652d0b4e16689ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:48 +0000
Subject: [PATCH 82/88] fix: impossible fuselages were only refused when
 verbose

---
 .../subsystems/mass/flops_based/fuselage.py   | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/fuselage.py b/aviary/subsystems/mass/flops_based/fuselage.py
index 478b910..a38a16f 100644
--- a/aviary/subsystems/mass/flops_based/fuselage.py
+++ b/aviary/subsystems/mass/flops_based/fuselage.py
@@ -2,7 +2,6 @@ import openmdao.api as om
 
 from aviary.constants import GRAV_ENGLISH_LBM
 from aviary.subsystems.mass.flops_based.distributed_prop import distributed_engine_count_factor
-from aviary.variable_info.enums import Verbosity
 from aviary.variable_info.functions import add_aviary_input, add_aviary_option, add_aviary_output
 from aviary.variable_info.variables import Aircraft, Mission, Settings
 
@@ -168,14 +167,12 @@ class BWBFuselageMass(om.ExplicitComponent):
         self.declare_partials(Aircraft.Fuselage.MASS, '*')
 
     def compute(self, inputs, outputs):
-        verbosity = self.options[Settings.VERBOSITY]
         gross_weight = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
         cabin_area = inputs[Aircraft.Fuselage.CABIN_AREA]
         mass_scaler = inputs[Aircraft.Fuselage.MASS_SCALER]
 
         if gross_weight <= 0.0:
-            if verbosity > Verbosity.BRIEF:
-                raise om.AnalysisError('Aircraft.Design.GROSS_MASS must be positive.')
+            raise om.AnalysisError('Aircraft.Design.GROSS_MASS must be positive.')
 
         outputs[Aircraft.Fuselage.MASS] = mass_scaler * 1.8 * gross_weight**0.167 * cabin_area**1.06
 
@@ -243,7 +240,6 @@ class BWBAftBodyMass(om.ExplicitComponent):
         )
 
     def compute(self, inputs, outputs):
-        verbosity = self.options[Settings.VERBOSITY]
         num_fuse_eng = self.options[Aircraft.Engine.NUM_FUSELAGE_ENGINES]
         gross_weight = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
         fuse_area = inputs[Aircraft.Fuselage.PLANFORM_AREA]
@@ -255,16 +251,13 @@ class BWBAftBodyMass(om.ExplicitComponent):
         comp_frac = inputs[Aircraft.Wing.COMPOSITE_FRACTION]
 
         if rear_spar_percent_chord <= 0.0 or rear_spar_percent_chord >= 1.0:
-            if verbosity > Verbosity.BRIEF:
-                msg = f'{Aircraft.BWB.REAR_SPAR_PERCENT_CHORD_ROOT} must be within 0 and 1.'
-                raise ValueError(msg)
+            msg = f'{Aircraft.BWB.REAR_SPAR_PERCENT_CHORD_ROOT} must be within 0 and 1.'
+            raise ValueError(msg)
         if rear_spar_percent_chord_centerline <= 0.0 or rear_spar_percent_chord_centerline >= 1.0:
-            if verbosity > Verbosity.BRIEF:
-                msg = f'{Aircraft.BWB.REAR_SPAR_PERCENT_CHORD_CENTERLINE} must be within 0 and 1.'
-                raise ValueError()
+            msg = f'{Aircraft.BWB.REAR_SPAR_PERCENT_CHORD_CENTERLINE} must be within 0 and 1.'
+            raise ValueError(msg)
         if length <= 0.0:
-            if verbosity > Verbosity.BRIEF:
-                raise ValueError('Aircraft.Fuselage.LENGTH must be positive.')
+            raise ValueError('Aircraft.Fuselage.LENGTH must be positive.')
 
         aftbody_area = fuse_area - cabin_area
         aftbody_tr = ((1.0 - rear_spar_percent_chord) * root_chord) / (
-- 
2.43.0


From 409f7aedee3abf2a3b97c72bdf526e9d109ecf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:48 +0000
Subject: [PATCH 83/88] fix: long passenger compartments were refused when
 verbose and accepted otherwise

---
 aviary/subsystems/geometry/flops_based/fuselage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/geometry/flops_based/fuselage.py b/aviary/subsystems/geometry/flops_based/fuselage.py
index e984787..5d54a6b 100644
--- a/aviary/subsystems/geometry/flops_based/fuselage.py
+++ b/aviary/subsystems/geometry/flops_based/fuselage.py
@@ -147,7 +147,7 @@ class SimpleCabinLayout(om.ExplicitComponent):
         pax_compart_length = 0.6085 * length * (np.arctan(length / 59.0)) ** 1.1
         if pax_compart_length > 190.0:
             if verbosity > Verbosity.BRIEF:
-                raise UserWarning(
+                warnings.warn(
                     'Passenger compartment length is longer than recommended maximum'
                     ' length. Suggest using detailed layout algorithm.'
                 )
-- 
2.43.0


From 22fc7636bc8d625df4320a9264cb3294d561491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:48 +0000
Subject: [PATCH 84/88] fix: external subsystems that are no builders crashed
 quiet problems

---
 aviary/core/aviary_group.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 6322144..39c0d88 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -384,11 +384,12 @@ class AviaryGroup(om.Group):
         verbosity = self._override_verbosity(verbosity)
 
         for subsystem in external_subsystems:
-            if not isinstance(subsystem, SubsystemBuilder) and verbosity >= verbosity.BRIEF:
-                warnings.warn(
-                    'Provided external subsystem is not a SubsystemBuilder object and will not be '
-                    'loaded.'
-                )
+            if not isinstance(subsystem, SubsystemBuilder):
+                if verbosity >= Verbosity.BRIEF:
+                    warnings.warn(
+                        'Provided external subsystem is not a SubsystemBuilder object and will not '
+                        'be loaded.'
+                    )
             else:
                 if isinstance(subsystem, EngineModel):
                     self.engine_models.append(subsystem)
-- 
2.43.0


From 2d9adfc3245465be313ae6dd6e34a23f0875dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 85/88] fix: building a problem changed the package's default
 missions and the caller's phase_info

---
 aviary/core/aviary_group.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 39c0d88..fce99f7 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1,6 +1,7 @@
 import inspect
 import sys
 import warnings
+from copy import deepcopy
 from importlib.util import module_from_spec, spec_from_file_location
 import numpy as np
 from pathlib import Path
@@ -350,6 +351,10 @@ class AviaryGroup(om.Group):
                     'of motion.'
                 )
 
+        # options are completed when the model is built, leave the caller's (or the package's
+        # default) dictionary untouched
+        phase_info = deepcopy(phase_info)
+
         # create a new dictionary that only contains the phases from phase_info
         self.mission_info = {}
 
-- 
2.43.0


From 0b8225cc893dd4a9420968a89731e5e198710c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:19 +0000
Subject: [PATCH 86/88] fix: phases with initial guesses could not be written
 as phase info

---
 aviary/mission/phase_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/mission/phase_builder.py b/aviary/mission/phase_builder.py
index 430f2ae..81cfd4b 100644
--- a/aviary/mission/phase_builder.py
+++ b/aviary/mission/phase_builder.py
@@ -288,7 +288,7 @@ class PhaseBuilder(ABC):
         """
         subsystem_options = self.subsystem_options  # TODO: aero info?
         user_options = self.user_options.to_phase_info()
-        initial_guesses = dict(self.initial_guesses)
+        initial_guesses = {name: data for name, data in self.initial_guesses}
 
         # TODO some of these may be purely programming API hooks, rather than for use
         # with phase info
-- 
2.43.0


From 5ce3071f4ca2be41361314ac9c93ba841a818c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:40 +0000
Subject: [PATCH 87/88] fix: options that depend on other inputs were decided
 by values in whatever units they were given

---
 aviary/utils/process_input_decks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index c922938..408a9c2 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -286,6 +286,9 @@ def update_dependent_options(aircraft_values: AviaryValues, dependent_options):
     for var_name, dependency in dependent_options:
         if var_name in aircraft_values.keys():
             var_value, var_units = aircraft_values.get_item(var_name)
+            # thresholds are in the default units of the variable
+            if var_name in CoreMetaData and var_units != CoreMetaData[var_name]['units']:
+                var_value = aircraft_values.get_val(var_name, CoreMetaData[var_name]['units'])
             # dependency is a dictionary that contains the target option, the relationship to the variable and the output values
             if dependency['relation'] in operation_dict:
                 comp = operation_dict[dependency['relation']]
-- 
2.43.0


From 75c6e120508133139edf97a9c8d5c9a4541a87dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:40 +0000
Subject: [PATCH 88/88] fix: decks with GASP methods that leave out strut and
 fold options could not be loaded

---
 aviary/utils/process_input_decks.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index 408a9c2..8b688b5 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -243,15 +243,21 @@ def update_GASP_options(aircraft_values: AviaryValues):
     # update the options that depend on variables
     update_dependent_options(aircraft_values, dependent_options)
 
+    def option(name):
+        """Value of an option, which is its default if not given."""
+        if name in aircraft_values:
+            return aircraft_values.get_val(name)
+        return CoreMetaData[name]['default_value']
+
     ## STRUT AND FOLD ##
-    if not aircraft_values.get_val(Aircraft.Wing.HAS_STRUT):
+    if not option(Aircraft.Wing.HAS_STRUT):
         aircraft_values.set_val(Aircraft.Strut.DIMENSIONAL_LOCATION_SPECIFIED, val=False)
 
-    if aircraft_values.get_val(Aircraft.Wing.HAS_FOLD):
-        if not aircraft_values.get_val(Aircraft.Wing.CHOOSE_FOLD_LOCATION):
+    if option(Aircraft.Wing.HAS_FOLD):
+        if not option(Aircraft.Wing.CHOOSE_FOLD_LOCATION):
             aircraft_values.set_val(Aircraft.Wing.FOLD_DIMENSIONAL_LOCATION_SPECIFIED, val=True)
         else:
-            dim_loc_spec = aircraft_values.get_val(Aircraft.Strut.DIMENSIONAL_LOCATION_SPECIFIED)
+            dim_loc_spec = option(Aircraft.Strut.DIMENSIONAL_LOCATION_SPECIFIED)
             aircraft_values.set_val(
                 Aircraft.Wing.FOLD_DIMENSIONAL_LOCATION_SPECIFIED, val=dim_loc_spec
             )
-- 
2.43.0

