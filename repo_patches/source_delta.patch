From a29ea76dd7607ade37b5494488e424f140ff7b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 01/49] fix: replace attributes of another dtype or shape when
 overwriting

set_attributes_all kept the old attribute when the new value had another
dtype or shape, so overwriting e.g. a list by a tuple left Python.Type at
'list' and the variable was read back as the wrong type.
---
 src/hdf5storage/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 387480c..f2b78e6 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1435,6 +1435,8 @@ def set_attributes_all(
                         and val.shape == existing[k].shape
                     ):
                         attrs.modify(k, val)
+                    else:
+                        attrs.create(k, val)
                 except:
                     attrs.create(k, val)
     # Discard all other attributes.
-- 
2.43.0


From db73ece0aba4bd22612515aa14ca2c653a34f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 02/49] fix: overwriting a dict or struct fails when comparing
 MATLAB_fields

Comparing two arrays of variable length strings elementwise raises
ValueError when they have the same number of fields, so a dict could not
be overwritten by another one.
---
 src/hdf5storage/utilities.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index f2b78e6..8926fa3 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1423,11 +1423,8 @@ def set_attributes_all(
                 val = np.bytes_(value)
             else:
                 val = value
-            if k not in existing:
+            if k not in existing or k == "MATLAB_fields":
                 attrs.create(k, val)
-            elif k == "MATLAB_fields":
-                if not np.array_equal(val, existing[k]):
-                    attrs.create(k, val)
             else:
                 try:
                     if (
-- 
2.43.0


From 00d6dbcde20c229cb6657f0deea1578f77f6af4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 03/49] fix: raise OSError when writing to or deleting from a
 read-only File

The flag was always True, so the documented OSError was never raised and
HDF5 errors of all kinds surfaced instead.
---
 src/hdf5storage/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 908535c..3ac4398 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1663,7 +1663,7 @@ class File(collections.abc.MutableMapping):
                 )
             options = copy.copy(options)
         # Store the required arguments.
-        self._writable: bool = True
+        self._writable: bool = writable
         self._options: Options = options
         # Open the file. If writable is False, we can just open it. If
         # it is True, the process is longer.
-- 
2.43.0


From 52b85a041635f90541c183d1d112b2c36a4a90ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 04/49] fix: iterating over a File listed the references Group

dropwhile only drops a leading references Group, so with a name that sorts
before it, it was listed and items(), clear() and loadmat() failed. The
iterator also used the file outside of the lock; take the names under it.
---
 src/hdf5storage/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 3ac4398..4250c2f 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -42,7 +42,6 @@ import copy
 import datetime
 import importlib
 import inspect
-import itertools
 import os
 import pkgutil
 import posixpath
@@ -2122,15 +2121,16 @@ class File(collections.abc.MutableMapping):
             # Check that the file is open.
             if self._file is None:
                 raise OSError("File is closed.")
-            # We will use the output of the __iter__ method of the file,
+            # We will use the names in the file as they are now (the
+            # iterator of the file must not be used without the lock),
             # but if the Group for references is in the root Group, we
             # will need to filter it out.
+            names = list(self._file)
             refgrp = self._options.group_for_references
-            it = self._file.__iter__()
             if posixpath.split(refgrp)[0] == "/":
                 refgrp = refgrp[1:]
-                return itertools.dropwhile(lambda k: k == refgrp, it)
-            return it
+                names = [k for k in names if k != refgrp]
+            return iter(names)
 
     def __getitem__(self: "File", path: pathesc.Path) -> Any:
         """Reads the object at the specified `path` from the file.
-- 
2.43.0


From 17d28faf634a0c2f793620528d0e1e9be9e0f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 05/49] fix: allow paths next to a nested group_for_references

Any path sharing a parent Group with group_for_references was refused as
being inside of it.
---
 src/hdf5storage/__init__.py | 46 ++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 4250c2f..7aa4e6b 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1515,6 +1515,30 @@ class MarshallerCollection:
         return None, False
 
 
+def _conflicts_with_group(group: str, path: str) -> bool:
+    """Check whether a path is in a Group or holds it (root aside).
+
+    Parameters
+    ----------
+    group : str
+        The absolute POSIX path of the Group.
+    path : str
+        The absolute POSIX path to check.
+
+    Returns
+    -------
+    conflicts : bool
+        Whether `path` is `group`, is inside it, or is an ancestor of it
+        other than the root.
+
+    """
+    common = posixpath.commonpath((group, path))
+    return common != "/" and common in (
+        posixpath.normpath(group),
+        posixpath.normpath(path),
+    )
+
+
 class File(collections.abc.MutableMapping):
     """Wrapper that allows writing and reading data from an HDF5 file.
 
@@ -1895,14 +1919,9 @@ class File(collections.abc.MutableMapping):
                 prefix = ""
             else:
                 prefix = "/"
-            if (
-                posixpath.commonpath(
-                    (
-                        self._options.group_for_references,
-                        posixpath.join(prefix, groupname, targetname),
-                    ),
-                )
-                != "/"
+            if _conflicts_with_group(
+                self._options.group_for_references,
+                posixpath.join(prefix, groupname, targetname),
             ):
                 raise ValueError(
                     "Cannot write to paths inside the the "
@@ -2001,14 +2020,9 @@ class File(collections.abc.MutableMapping):
                 prefix = ""
             else:
                 prefix = "/"
-            if (
-                posixpath.commonpath(
-                    (
-                        self._options.group_for_references,
-                        posixpath.join(prefix, groupname, targetname),
-                    ),
-                )
-                != "/"
+            if _conflicts_with_group(
+                self._options.group_for_references,
+                posixpath.join(prefix, groupname, targetname),
             ):
                 raise ValueError(
                     "Cannot read from paths inside the the "
-- 
2.43.0


From 4cc15b94758455dc8af685c742558bbf8ac141b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 06/49] fix: refuse to delete the references Group of an open
 File

Deleting it left every container in the file dangling, including the ones
written afterwards, as the open File still used the deleted Group.
---
 src/hdf5storage/__init__.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 7aa4e6b..a676d2b 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2234,6 +2234,9 @@ class File(collections.abc.MutableMapping):
             If the file is closed or it isn't writable.
         TypeError
             If `path` is an invalid type.
+        ValueError
+            If `path` is inside the Group specified by the
+            ``group_for_references`` option.
         KeyError
             If there is no object at `path` in the file.
 
@@ -2241,8 +2244,18 @@ class File(collections.abc.MutableMapping):
         # File had to be opened writable.
         if not self._writable:
             raise OSError("File is not writable.")
-        # Process the path.
+        # Process the path. The Group specified by
+        # options.group_for_references holds the elements of the other
+        # variables and is in use by this file, so it can't be deleted.
         groupname, targetname = pathesc.process_path(path)
+        if _conflicts_with_group(
+            self._options.group_for_references,
+            posixpath.join("/", groupname, targetname),
+        ):
+            raise ValueError(
+                "Cannot delete paths inside the the Group specified by the "
+                "group_for_references option.",
+            )
         # File operations must be synchronized.
         with self._lock:
             # Check that the file is open.
-- 
2.43.0


From 41408ebdc1d53388846a98052017476e41665d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 07/49] fix: never truncate a file that appeared while it was
 being opened

A file created by someone else between the check for existence and the
creation, or whose lookup failed for a transient reason, was truncated even
though truncate_existing was not set.
---
 src/hdf5storage/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index a676d2b..45ea56d 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1706,8 +1706,14 @@ class File(collections.abc.MutableMapping):
             # allocated (smallest size is 512) for future use (after
             # all, someone might want to turn it to a .mat file later
             # and need it and it is only 512 bytes).
-            if truncate_existing or not os.path.isfile(filename):
+            #
+            # A file that seems not to exist is created exclusively so
+            # that one that appears meanwhile, or that could not be
+            # looked up, is not truncated.
+            if truncate_existing:
                 self._file = h5py.File(filename, mode="w", userblock_size=512)
+            elif not os.path.isfile(filename):
+                self._file = h5py.File(filename, mode="x", userblock_size=512)
             else:
                 self._file = h5py.File(filename, mode="a")
                 if (
-- 
2.43.0


From e2f5f42dc07419b8def0fbc6f8898ff00a920255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 08/49] fix: keep the references Group when writing a dict or
 struct to the root

Deleting the objects that are not members of a dict or struct written to
the root deleted the references Group too. The open File kept writing into
the deleted Group and everything written to it was lost.
---
 src/hdf5storage/Marshallers.py |  6 ++++--
 src/hdf5storage/utilities.py   | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b1a562c..86a2c2e 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -885,7 +885,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
 
             if f.options.delete_unused_variables:
                 for field in set(dsetgrp).difference(set(escaped_field_names)):
-                    del dsetgrp[field]
+                    if not f.holds_references(dsetgrp, field):
+                        del dsetgrp[field]
 
             # Go field by field making an object array (make an empty
             # object array and assign element wise) and write it inside
@@ -1855,7 +1856,8 @@ class PythonDictMarshaller(TypeMarshaller):
 
         if any_non_valid_str_keys or f.options.delete_unused_variables:
             for field in set(grp2).difference(set(names)):
-                del grp2[field]
+                if not f.holds_references(grp2, field):
+                    del grp2[field]
 
         # Go through all the names and values and write them. The H5PATH
         # needs to be set as the path of grp2 on all of them if we are
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 8926fa3..1c9fb3d 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -543,6 +543,27 @@ class LowLevelFile:
             data_derefed_flat[index] = self.read_data(None, None, dsetgrp=self._f[x])
         return data_derefed
 
+    def holds_references(self: "LowLevelFile", grp: h5py.Group, name: str) -> bool:
+        """Checks if an object is, or holds, the Group for references.
+
+        Parameters
+        ----------
+        grp : h5py.Group
+            The Group the object is in.
+        name : str
+            The name of the object in `grp`.
+
+        Returns
+        -------
+        holds_references : bool
+            Whether the object is the Group specified by the
+            ``group_for_references`` option or an ancestor of it.
+
+        """
+        path = posixpath.join(grp.name, name)
+        refs = posixpath.normpath(self._options.group_for_references)
+        return posixpath.commonpath((path, refs)) == path
+
     def next_unused_ref_group_name(self: "LowLevelFile") -> str:
         """Gives the next unused name that the references Group.
 
-- 
2.43.0


From 67e4f45dba7f88c05b76ce7b9b367e2d1c331691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 09/49] fix: allow reading the Group that holds a nested
 references Group

It is listed when iterating over the file, and reading it skips the
references Group, but it was refused as being inside of it.
---
 src/hdf5storage/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 45ea56d..200bae2 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2026,10 +2026,9 @@ class File(collections.abc.MutableMapping):
                 prefix = ""
             else:
                 prefix = "/"
-            if _conflicts_with_group(
-                self._options.group_for_references,
-                posixpath.join(prefix, groupname, targetname),
-            ):
+            refgrp = posixpath.normpath(self._options.group_for_references)
+            full_path = posixpath.join(prefix, groupname, targetname)
+            if posixpath.commonpath((refgrp, full_path)) == refgrp:
                 raise ValueError(
                     "Cannot read from paths inside the the "
                     "Group specified by the "
-- 
2.43.0


From 4bb2003ed980d007b4225687c844298f014efaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 10/49] fix: write dicts and structs at paths with non-ASCII
 names

The H5PATH attribute was encoded as ASCII, so writing a dict nested under
such a key failed half way with UnicodeEncodeError.
---
 src/hdf5storage/Marshallers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 86a2c2e..52e082b 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -896,7 +896,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # attribute needs to be set appropriately, while all other
             # attributes need to be deleted.
             if f.options.matlab_compatible:
-                dsetgrpname = dsetgrp.name
+                dsetgrpname = dsetgrp.name.encode("utf-8")
             for i, field in enumerate(field_names):
                 esc_field = escaped_field_names[i]
                 new_data4 = np.zeros(shape=data_to_store.shape, dtype="object")
@@ -927,7 +927,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 if field_obj is not None:
                     esc_attrs = {}
                     if f.options.matlab_compatible:
-                        esc_attrs["H5PATH"] = ("string", dsetgrpname)
+                        esc_attrs["H5PATH"] = ("value", np.bytes_(dsetgrpname))
 
                     # In the case that we wrote a Reference array (not a
                     # single element), then all other attributes need to
@@ -1864,7 +1864,7 @@ class PythonDictMarshaller(TypeMarshaller):
         # doing MATLAB compatibility (otherwise, the attribute needs to
         # be deleted).
         if f.options.matlab_compatible:
-            grp2name = np.bytes_(grp2.name)
+            grp2name = np.bytes_(grp2.name.encode("utf-8"))
         for i, k in enumerate(names):
             obj = f.write_data(grp2, k, values[i], None)
             if obj is not None:
-- 
2.43.0


From fbf19f21c802fcfa892197e8999e71509e81333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 11/49] fix: store complex numbers of non-native byte order
 correctly

encode_complex viewed them as native floats, so other values were stored
and read back.
---
 src/hdf5storage/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 1c9fb3d..b7cb576 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1335,6 +1335,7 @@ def encode_complex(
     dtype_name = data.dtype.name
     if dtype_name[0:7] == "complex":
         dtype_name = "float" + str(int(float(dtype_name[7:]) / 2))
+        dtype_name = data.dtype.byteorder + np.dtype(dtype_name).str[1:]
 
     # Create the new version of the data with the right field names for
     # the real and complex parts. This is easy to do with putting the
-- 
2.43.0


From d91232c7425032e038654ab89e45bfe229eaf3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 12/49] fix: read a Group without members and metadata

The shape was taken from the last member, so an empty Group that has no
Python metadata (written without it, or by MATLAB) could not be read.
---
 src/hdf5storage/Marshallers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 52e082b..5c305ea 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1263,6 +1263,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 fields = sorted(struct_data)
 
             dt_whole: List[Union[Tuple[str, str], Tuple[str, str, Sequence[int]]]] = []
+            # A Group without any members has the shape of a scalar struct.
+            v = np.zeros(shape=(1,), dtype="object")
             for k in fields:
                 # Read the value.
                 v = struct_data[k]
-- 
2.43.0


From e12263974bf0c375463e4250ee07085e0cf1742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 13/49] fix: read strings whose last character has a null low
 byte

numpy.char.decode drops the trailing null bytes of the big endian form,
so strings ending in characters like U+4E00 or U+0100 could not be read.
---
 src/hdf5storage/utilities.py | 41 ++++++++++++++----------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index b7cb576..d05a568 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1003,31 +1003,22 @@ def convert_to_numpy_str(
                 new_shape = copy.deepcopy(shape)
                 new_shape[-1] //= length_to_use
 
-            # numpy.char.decode will be used to decode. It needs the
-            # encoding (UTF-8/16/32) which is gotten from the dtype. But
-            # it also needs the data to be in big endian format, so it
-            # must be byteswapped if it isn't. Without the swapping, an
-            # error occurs since trailing nulls are dropped in numpy
-            # bytes_ arrays. The dtype for each string element is just
-            # 'SX' where X is the number of bytes.
-            if data.dtype.name == "uint8":
-                encoding = "UTF-8"
-                swapbytes = False
-                dt = "S" + str(length_to_use)
-            else:
-                if data.dtype.name == "uint16":
-                    encoding = "UTF-16BE"
-                    dt = "S" + str(2 * length_to_use)
-                else:
-                    encoding = "UTF-32BE"
-                    dt = "S" + str(4 * length_to_use)
-                swapbytes = data.dtype.byteorder == "<" or (
-                    sys.byteorder == "little" and data.dtype.byteorder == "="
-                )
-            # Copy is needed to prevent errors.
-            if swapbytes:
-                return np.char.decode(data.copy().byteswap().view(dt), encoding)
-            return np.char.decode(data.copy().view(dt), encoding)
+            # Each group of length_to_use elements is decoded as one
+            # string. The encoding (UTF-8/16/32) is gotten from the
+            # dtype. The bytes are decoded directly instead of with
+            # numpy.char.decode because trailing null bytes are dropped
+            # in numpy bytes_ arrays, and the last byte of a UTF-16 or
+            # UTF-32 character can be null.
+            nbytes = length_to_use * data.dtype.itemsize
+            encoding = {"uint8": "UTF-8", "uint16": "UTF-16LE", "uint32": "UTF-32LE"}[
+                data.dtype.name
+            ]
+            raw = data.astype(data.dtype.newbyteorder("<")).tobytes()
+            strs = [
+                raw[(i * nbytes) : ((i + 1) * nbytes)].decode(encoding)
+                for i in range(int(np.prod(new_shape)))
+            ]
+            return np.array(strs, dtype=np.str_).reshape(tuple(new_shape))
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         # Easily converted through constructor.
-- 
2.43.0


From 2ece4279eef062812a46bedf98979b6c925a037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 14/49] fix: keep the dtype of str arrays whose elements are
 all shorter

A U5 array whose longest element has three characters was read as U3.
---
 src/hdf5storage/Marshallers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 5c305ea..3274ea5 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1407,10 +1407,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 if underlying_type == "str":
                     data = np.unicode_("")
                 elif underlying_type.startswith("str"):
-                    data = convert_to_numpy_str(
-                        data,
-                        length=int(underlying_type[3:]) // 32,
-                    )
+                    nchars = int(underlying_type[3:]) // 32
+                    data = convert_to_numpy_str(data, length=nchars)
+                    # Elements shorter than the dtype must not narrow it.
+                    if isinstance(data, np.ndarray):
+                        data = data.astype("U" + str(nchars))
                 else:
                     data = convert_to_numpy_str(data)
 
-- 
2.43.0


From 5c34dc29c87f0471d618c5c6fb6841461e362bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 15/49] fix: keep trailing null characters of str, bytes and
 bytearray

---
 src/hdf5storage/Marshallers.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 3274ea5..a88cf9f 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1700,14 +1700,24 @@ class PythonStringMarshaller(NumpyScalarArrayMarshaller):
 
         # The type string determines how to convert it back to a Python
         # type (just look up the entry in types). Otherwise, return it
-        # as is.
+        # as is. Trailing nulls, which numpy drops, are restored using
+        # the length in bits at the end of the underlying type (there
+        # can't be more of them than bytes are stored).
         type_string = convert_attribute_to_string(attributes["Python.Type"])
+        underlying_type = convert_attribute_to_string(
+            attributes["Python.numpy.UnderlyingType"],
+        )
+        nbytes = 0
+        if underlying_type is not None and isinstance(dsetgrp, h5py.Dataset):
+            nbits = underlying_type.lstrip("bytesr")
+            if nbits.isdecimal():
+                nbytes = min(int(nbits) // 8, 4 * dsetgrp.nbytes)
         if type_string == "str":
-            return convert_to_str(data)
+            return convert_to_str(data).ljust(nbytes // 4, "\0")
         if type_string == "bytes":
-            return bytes(data)
+            return bytes(data).ljust(nbytes, b"\0")
         if type_string == "bytearray":
-            return bytearray(data)
+            return bytearray(data).ljust(nbytes, b"\0")
         return data
 
 
-- 
2.43.0


From a847cea5001d46ac39511c40456b60222f2bd3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 16/49] fix: store dicts with an empty key or keys of equal
 text

An empty key could not be written, and of the keys 'a' and b'a' of one
dict only one was kept. Such dicts are stored as keys and values now.
---
 src/hdf5storage/Marshallers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index a88cf9f..a3c0b3a 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1826,6 +1826,11 @@ class PythonDictMarshaller(TypeMarshaller):
                 any_non_valid_str_keys = True
                 break
 
+        # An HDF5 object can't have an empty name or the name of another
+        # one (both 'a' and b'a' are possible keys).
+        if "" in keys_as_str or len(set(keys_as_str)) != len(keys_as_str):
+            any_non_valid_str_keys = True
+
         # If the group doesn't exist, it needs to be created. If it
         # already exists but is not a group, it needs to be deleted
         # before being created.
-- 
2.43.0


From 7d4b1e860013619a6eeb80344e13722990f42f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 17/49] fix: store strings and dict keys with lone surrogates

Such strings were written but could not be read back (silently dropping
them from dicts), and could not be used as keys.
---
 src/hdf5storage/Marshallers.py |  1 +
 src/hdf5storage/utilities.py   | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index a3c0b3a..b8f9cb7 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1820,6 +1820,7 @@ class PythonDictMarshaller(TypeMarshaller):
                 break
             try:
                 field_str = escape_path(convert_to_str(field))
+                field_str.encode("utf-8")
                 keys_as_str.append(field_str)
                 key_str_types.append(tps[type(field)])
             except:
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index d05a568..f69d79b 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -858,9 +858,9 @@ def convert_to_str(
         if data.dtype.name == "uint8":
             return data.tobytes().decode("UTF-8")
         if data.dtype.name == "uint16":
-            return data.tobytes().decode("UTF-16")
+            return data.tobytes().decode("UTF-16", "surrogatepass")
         if data.dtype.name == "uint32":
-            return data.tobytes().decode("UTF-32")
+            return data.tobytes().decode("UTF-32", "surrogatepass")
         if data.dtype.type == np.bytes_:
             if data.dtype.itemsize == 0:
                 return ""
@@ -868,7 +868,7 @@ def convert_to_str(
         if data.dtype.type == np.str_:
             if data.dtype.itemsize == 0:
                 return ""
-            return data.tobytes().decode("UTF-32")
+            return data.tobytes().decode("UTF-32", "surrogatepass")
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         return data
@@ -1015,7 +1015,10 @@ def convert_to_numpy_str(
             ]
             raw = data.astype(data.dtype.newbyteorder("<")).tobytes()
             strs = [
-                raw[(i * nbytes) : ((i + 1) * nbytes)].decode(encoding)
+                raw[(i * nbytes) : ((i + 1) * nbytes)].decode(
+                    encoding,
+                    "strict" if encoding == "UTF-8" else "surrogatepass",
+                )
                 for i in range(int(np.prod(new_shape)))
             ]
             return np.array(strs, dtype=np.str_).reshape(tuple(new_shape))
-- 
2.43.0


From 2994f743ca71d66fc12cdef5273f566d886e3ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 18/49] fix: write non-contiguous, 0-d, chararray and byte
 swapped string arrays

Those needed views of the data that numpy refuses in MATLAB mode, or got
garbage in non-native byte order.
---
 src/hdf5storage/Marshallers.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b8f9cb7..eda2f48 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -747,8 +747,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 data_to_store = np.zeros((0,), np.uint16)
             else:
                 new_data = (
-                    np.atleast_1d(data_to_store)
-                    .view(np.ndarray)
+                    np.ascontiguousarray(data_to_store)
                     .view(np.uint8)
                     .astype(np.uint16)
                 )
@@ -764,9 +763,16 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # UTF-32 character gets turned into a UTF-16 doublet (the
         # increase in the number of columns will be by a factor more
         # than the length of the strings); then it will be simply
-        # converted to uint32's byte for byte instead.
+        # converted to uint32's byte for byte instead. Arrays have to be
+        # at least 1 dimensional, contiguous, and in native byte order
+        # for either.
 
         if data.dtype.type == np.unicode_:
+            if isinstance(data_to_store, np.ndarray) and data_to_store.nbytes != 0:
+                data_to_store = np.ascontiguousarray(
+                    data_to_store,
+                    dtype=data_to_store.dtype.newbyteorder("="),
+                )
             new_data2 = None
             if f.options.convert_numpy_str_to_utf16:
                 with contextlib.suppress(Exception):
-- 
2.43.0


From dff12e132397d4545b696c80b2848205e61ca320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 19/49] fix: escape dict_like_keys_name and
 dict_like_values_name when writing

They are escaped when reading, so names holding '/' or a leading '.' or a
backslash gave dicts that could not be read back.
---
 src/hdf5storage/Marshallers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index eda2f48..2cd5fa8 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1870,7 +1870,10 @@ class PythonDictMarshaller(TypeMarshaller):
             Tuple[Tuple[str, Any], ...],
         ]
         if any_non_valid_str_keys:
-            names = (f.options.dict_like_keys_name, f.options.dict_like_values_name)
+            names = (
+                escape_path(f.options.dict_like_keys_name),
+                escape_path(f.options.dict_like_values_name),
+            )
             values = (tuple(data), tuple(data.values()))
         else:
             names = tuple(keys_as_str)
-- 
2.43.0


From ef01a0b5f2b02e4b5ec38f306c03df74de67af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 20/49] fix: refuse to overwrite the references Group through a
 dict or struct

Writing a dict or struct with a member of the name of the references
Group to its parent replaced that Group, losing the elements of every
container in the file.
---
 src/hdf5storage/Marshallers.py | 15 +++++++++++++++
 src/hdf5storage/utilities.py   |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 2cd5fa8..ea10129 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -32,6 +32,7 @@ import contextlib
 import datetime
 import importlib
 import inspect
+import posixpath
 import sys
 import warnings
 from typing import Any, Dict, List, Optional, Set, Tuple, Type, Union
@@ -870,6 +871,13 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             field_names = list(data_to_store.dtype.names)
             escaped_field_names = [escape_path(n) for n in field_names]
 
+            # The members must not overwrite the Group for references.
+            if any(f.holds_references(grp, posixpath.join(name, k)) for k in escaped_field_names):
+                raise ValueError(
+                    "Cannot write to the Group specified by the "
+                    "group_for_references option.",
+                )
+
             # If the group doesn't exist, it needs to be created. If it
             # already exists but is not a group, it needs to be deleted
             # before being created.
@@ -1838,6 +1846,13 @@ class PythonDictMarshaller(TypeMarshaller):
         if "" in keys_as_str or len(set(keys_as_str)) != len(keys_as_str):
             any_non_valid_str_keys = True
 
+        # The members must not overwrite the Group for references.
+        if any(f.holds_references(grp, posixpath.join(name, k)) for k in keys_as_str):
+            raise ValueError(
+                "Cannot write to the Group specified by the "
+                "group_for_references option.",
+            )
+
         # If the group doesn't exist, it needs to be created. If it
         # already exists but is not a group, it needs to be deleted
         # before being created.
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index f69d79b..d13817b 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -560,7 +560,7 @@ class LowLevelFile:
             ``group_for_references`` option or an ancestor of it.
 
         """
-        path = posixpath.join(grp.name, name)
+        path = posixpath.normpath(posixpath.join(grp.name, name))
         refs = posixpath.normpath(self._options.group_for_references)
         return posixpath.commonpath((path, refs)) == path
 
-- 
2.43.0


From 57f1ade6cade099fabfe09b79d53335f0735195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 21/49] fix: make the oned_as option work

The transposed array was assigned to a variable that is not used, so 1d
arrays became row vectors whatever the option.
---
 src/hdf5storage/Marshallers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index ea10129..7180b61 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -796,12 +796,16 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
 
         # Convert scalars to arrays if that option is set. For 1d
         # arrays, an option determines whether they become row or column
-        # vectors.
+        # vectors (the characters of strings are always along a row).
 
         if f.options.make_atleast_2d:
             new_data3 = np.atleast_2d(data_to_store)
-            if len(data_to_store.shape) == 1 and f.options.oned_as == "column":
-                new_data = new_data3.T
+            if (
+                len(data_to_store.shape) == 1
+                and f.options.oned_as == "column"
+                and data.dtype.type not in (np.bytes_, np.str_)
+            ):
+                new_data3 = new_data3.T
             data_to_store = new_data3
 
         # Reverse the dimension order if that option is set.
-- 
2.43.0


From 5c08aab83ef492f91b2e769135c57692e7abdbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 22/49] fix: read structured arrays with a string field that is
 empty everywhere

numpy refuses a field dtype of width zero, so they could not be read.
---
 src/hdf5storage/Marshallers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 7180b61..ec35152 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1307,8 +1307,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     all_same = False
 
                 # If they are all the same, then dt and shape should be
-                # used. Otherwise, it has to be object.
+                # used (strings that are all empty need the width of one
+                # character). Otherwise, it has to be object.
                 if all_same:
+                    if dt.kind in "SU" and dt.itemsize == 0:
+                        dt = np.dtype(dt.kind + "1")
                     dt_whole.append((k, dt, sp))
                 else:
                     dt_whole.append((k, "object"))
-- 
2.43.0


From fd1a6394c3fa61f4c061d7963d0ee270d6d1ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 23/49] fix: raise when an Attribute can't be read

AttributeManager.items gives None for Attributes that fail to be opened,
so a value whose type Attributes were hit by a failing disk was read as
if it had none.
---
 src/hdf5storage/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index d13817b..b42589b 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -127,7 +127,9 @@ def read_all_attributes_into(
         (dict, collections.defaultdict, collections.abc.MutableMapping),
     ):
         raise TypeError("out must be a MutableMapping.")
-    out.update(attrs.items())
+    # attrs.items() would give None for those that fail to be read.
+    for k in attrs:
+        out[k] = attrs[k]
 
 
 class LowLevelFile:
-- 
2.43.0


From 3107227a166cffd77d349248314ede0b5bf58e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 24/49] fix: refuse to read dates, times, fractions, etc.
 without all members

Members that failed to be read were left out, so that their defaults were
used: a Fraction 1/3 was read as 1, a time 12:30 as 12:00.
---
 src/hdf5storage/Marshallers.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index ec35152..3e0e07e 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1790,6 +1790,9 @@ class PythonNoneEllipsisNotImplementedMarshaller(NumpyScalarArrayMarshaller):
 
 
 class PythonDictMarshaller(TypeMarshaller):
+    # Whether a member that can't be read means that the whole can't be.
+    _requires_all_fields: bool = False
+
     def __init__(self: "PythonDictMarshaller") -> None:
         TypeMarshaller.__init__(self)
         self.python_attributes |= {
@@ -2113,6 +2116,17 @@ class PythonDictMarshaller(TypeMarshaller):
                         k_conv = uk
                     items.append((k_conv, v))
 
+        # Types that are stored as a dict of constructor arguments can't
+        # be made without all of them.
+        if (
+            self._requires_all_fields
+            and python_fields is not None
+            and not {unescape_path(k) for k in python_fields}.issubset(dict(items))
+        ):
+            raise hdf5storage.exceptions.CantReadError(
+                "Could not read all members of " + grp2.name,
+            )
+
         # Construct a dict like from the items. If it is supposed to
         # be an OrderedDict, it should be that. Otherwise, it will be a
         # dict (inheriting classes are responsible for converting it).
@@ -2152,6 +2166,8 @@ class PythonCounterMarshaller(PythonDictMarshaller):
 
 
 class PythonSliceRangeMarshaller(PythonDictMarshaller):
+    _requires_all_fields = True
+
     def __init__(self: "PythonSliceRangeMarshaller") -> None:
         PythonDictMarshaller.__init__(self)
         self.types = (slice, range)
@@ -2208,6 +2224,8 @@ class PythonSliceRangeMarshaller(PythonDictMarshaller):
 
 
 class PythonDatetimeObjsMarshaller(PythonDictMarshaller):
+    _requires_all_fields = True
+
     def __init__(self: "PythonDatetimeObjsMarshaller") -> None:
         PythonDictMarshaller.__init__(self)
         # We will not import fractions right away and instead let the
@@ -2304,6 +2322,8 @@ class PythonDatetimeObjsMarshaller(PythonDictMarshaller):
 
 
 class PythonFractionMarshaller(PythonDictMarshaller):
+    _requires_all_fields = True
+
     def __init__(self: "PythonFractionMarshaller") -> None:
         PythonDictMarshaller.__init__(self)
         # We will not import fractions right away and instead let the
-- 
2.43.0


From 13ff1f8e39723a1c098557372242c0906294982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 25/49] fix: write a dict with an empty key to the root

---
 src/hdf5storage/Marshallers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 3e0e07e..4b50eb7 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1857,7 +1857,17 @@ class PythonDictMarshaller(TypeMarshaller):
             any_non_valid_str_keys = True
 
         # The members must not overwrite the Group for references.
-        if any(f.holds_references(grp, posixpath.join(name, k)) for k in keys_as_str):
+        if any(
+            f.holds_references(grp, posixpath.join(name, k))
+            for k in (
+                (
+                    escape_path(f.options.dict_like_keys_name),
+                    escape_path(f.options.dict_like_values_name),
+                )
+                if any_non_valid_str_keys
+                else keys_as_str
+            )
+        ):
             raise ValueError(
                 "Cannot write to the Group specified by the "
                 "group_for_references option.",
-- 
2.43.0


From fa278ed4c915273de9e77d1981d08c47763a2eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 26/49] fix: read slices, dates, fractions, etc. that replaced
 another Group

---
 src/hdf5storage/Marshallers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 4b50eb7..f620d49 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -2081,9 +2081,13 @@ class PythonDictMarshaller(TypeMarshaller):
                 for s in [k.tobytes().decode() for k in matlab_fields]:
                     if s not in fields:
                         fields.append(s)
-            for k in grp2:
-                if k not in fields:
-                    fields.append(k)
+            # Types that are stored as a dict of constructor arguments
+            # have no others than the listed ones (an overwritten dict
+            # or struct may have left some behind).
+            if not self._requires_all_fields or python_fields is None:
+                for k in grp2:
+                    if k not in fields:
+                        fields.append(k)
 
             # Read the keys and values one by one putting them into
             # items. Since we don't want an exception thrown by reading
-- 
2.43.0


From 8b728aedd718073fb56eecdafba65d2912656a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 27/49] fix: report errors from writing the data of a Dataset
 to the disk

HDF5 may hold back the data of a Dataset till it is closed, which happens
when its handle is deallocated where the error (full disk, I/O error) is
ignored and the data silently lost. It is now written out right away.
---
 src/hdf5storage/utilities.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index b42589b..575d664 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -274,7 +274,14 @@ class LowLevelFile:
         # be the path to the containing group.
 
         if m is not None and has_modules:
-            return m.write(self, grp, name, data, type_string)
+            obj = m.write(self, grp, name, data, type_string)
+            # HDF5 may hold back the data till the Dataset is closed,
+            # which is when its handle is deallocated and the error from
+            # a failure to write the data to the disk would be lost. So
+            # the data must be written out now.
+            if isinstance(obj, h5py.Dataset):
+                obj.flush()
+            return obj
         raise NotImplementedError("Can't write data type: " + str(tp))
 
     def read_data(
-- 
2.43.0


From 457e240b5547ad9a0c50b341a51d801ba35b9cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 28/49] fix: overwriting a Dataset compressed with lzf by one
 of the same type and shape

There is no compression level to compare for lzf, and the resulting KeyError
was taken as the Dataset not existing.
---
 src/hdf5storage/Marshallers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index f620d49..d4e6632 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1009,7 +1009,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     or dsetgrp.compression != filters["compression"]
                     or dsetgrp.shuffle != filters["shuffle"]
                     or dsetgrp.fletcher32 != filters["fletcher32"]
-                    or dsetgrp.compression_opts != filters["compression_opts"]
+                    or dsetgrp.compression_opts != filters.get("compression_opts")
                 ):
                     del grp[name]
                     dsetgrp = grp.create_dataset(name, data=data_to_store, **filters)
-- 
2.43.0


From b77d7052f915dc2f8165ace674ded51e1c06c023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 29/49] fix: a variable that can't be read from the disk is not
 missing

A failing lookup gave KeyError, so get() and pop() returned their default and
setdefault() overwrote the variable. CantReadError is raised instead.
---
 src/hdf5storage/__init__.py  | 6 +++++-
 src/hdf5storage/utilities.py | 9 ++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 200bae2..fc519f7 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -52,7 +52,7 @@ from typing import Any, Dict, List, Optional, Tuple, Type, Union
 
 import h5py
 
-from . import Marshallers, pathesc, plugins, utilities
+from . import Marshallers, exceptions, pathesc, plugins, utilities
 
 if sys.version_info >= (3, 9):
     from collections.abc import Iterable, Iterator, Mapping, Sequence
@@ -2047,6 +2047,10 @@ class File(collections.abc.MutableMapping):
                 # indeed a group. If it isn't an error needs to be
                 # thrown.
                 grp = self._file.get(groupname)
+                if grp is None and groupname in self._file:
+                    raise exceptions.CantReadError(
+                        "Could not read containing Group " + groupname + ".",
+                    )
                 if grp is None or not isinstance(grp, h5py.Group):
                     raise KeyError("Could not find containing Group " + groupname + ".")
                 # Hand off everything to the low level reader.
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 575d664..6006875 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -336,7 +336,14 @@ class LowLevelFile:
             # If name isn't found, return error.
             dsetgrp = grp.get(name)
             if dsetgrp is None:
-                raise KeyError("Could not find " + posixpath.join(grp.name, name))
+                # It must not be taken as missing if it is there but
+                # could not be read.
+                full_name = posixpath.join(grp.name, name)
+                if name in grp:
+                    raise hdf5storage.exceptions.CantReadError(
+                        "Could not read " + full_name,
+                    )
+                raise KeyError("Could not find " + full_name)
 
         # Get all attributes with values, with the default being for any
         # unavailable ones being None.
-- 
2.43.0


From 89b4ec7f44b0c32ce2d6aa057f0771d685df05a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 30/49] fix: an element that can't be read from the disk is not
 a missing variable

As KeyError came out of get() and pop() as their default, and made
setdefault() overwrite the variable.
---
 src/hdf5storage/__init__.py  | 13 +++++++++++--
 src/hdf5storage/utilities.py |  9 +--------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index fc519f7..06c874e 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2053,8 +2053,17 @@ class File(collections.abc.MutableMapping):
                     )
                 if grp is None or not isinstance(grp, h5py.Group):
                     raise KeyError("Could not find containing Group " + groupname + ".")
-                # Hand off everything to the low level reader.
-                datas.append(self._file_wrapper.read_data(grp, targetname))
+                # Hand off everything to the low level reader. It must
+                # not be taken as missing if it is there but it, or
+                # something in it, could not be read.
+                try:
+                    datas.append(self._file_wrapper.read_data(grp, targetname))
+                except KeyError as err:
+                    if targetname not in grp:
+                        raise
+                    raise exceptions.CantReadError(
+                        "Could not read " + posixpath.join(groupname, targetname),
+                    ) from err
         # Return it all.
         return datas
 
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 6006875..575d664 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -336,14 +336,7 @@ class LowLevelFile:
             # If name isn't found, return error.
             dsetgrp = grp.get(name)
             if dsetgrp is None:
-                # It must not be taken as missing if it is there but
-                # could not be read.
-                full_name = posixpath.join(grp.name, name)
-                if name in grp:
-                    raise hdf5storage.exceptions.CantReadError(
-                        "Could not read " + full_name,
-                    )
-                raise KeyError("Could not find " + full_name)
+                raise KeyError("Could not find " + posixpath.join(grp.name, name))
 
         # Get all attributes with values, with the default being for any
         # unavailable ones being None.
-- 
2.43.0


From 6679b5044c5191a090921084ddb093208cd53e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 31/49] fix: keep an element named 'a' by another writer in the
 references group

---
 src/hdf5storage/utilities.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 575d664..a058bbd 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -448,7 +448,7 @@ class LowLevelFile:
         # is just a np.uint32/64([0, 0]) with its a MATLAB_class of
         # 'canonical empty' and the 'MATLAB_empty' attribute set. If it
         # isn't present or is incorrectly formatted, it is created
-        # truncating anything previously there.
+        # after moving anything previously there to another name.
         if self._canonical_empty is None:
             self._canonical_empty = self._refs_group.get("a", default=None)
             if self._canonical_empty is not None:
@@ -464,7 +464,9 @@ class LowLevelFile:
                     != "canonical empty"
                     or ce_attrs.get("MATLAB_empty") != 1
                 ):
-                    del self._refs_group["a"]
+                    # It may be an element of a container, so it is
+                    # moved out of the way (references to it stay valid).
+                    self._rename_in_ref_group(self._refs_group, "a")
                     self._canonical_empty = None
             if self._canonical_empty is None:
                 self._canonical_empty = self._refs_group.create_dataset(
@@ -573,6 +575,27 @@ class LowLevelFile:
         refs = posixpath.normpath(self._options.group_for_references)
         return posixpath.commonpath((path, refs)) == path
 
+    def _rename_in_ref_group(
+        self: "LowLevelFile",
+        refs_group: h5py.Group,
+        name: str,
+    ) -> None:
+        """Gives an object in the references group an unused random name.
+
+        Parameters
+        ----------
+        refs_group : h5py.Group
+            The references group.
+        name : str
+            The current name of the object.
+
+        """
+        bits = self._refs_group_name_length * 4
+        new_name = f"{random.getrandbits(bits):0{self._refs_group_name_length}x}"
+        while new_name in refs_group:
+            new_name = f"{random.getrandbits(bits):0{self._refs_group_name_length}x}"
+        refs_group.move(name, new_name)
+
     def next_unused_ref_group_name(self: "LowLevelFile") -> str:
         """Gives the next unused name that the references Group.
 
@@ -628,7 +651,7 @@ class LowLevelFile:
         # is just a np.uint32/64([0, 0]) with its a MATLAB_class of
         # 'canonical empty' and the 'MATLAB_empty' attribute set. If it
         # isn't present or is incorrectly formatted, it is created
-        # truncating anything previously there.
+        # after moving anything previously there to another name.
         if self._canonical_empty is None:
             self._canonical_empty = self._refs_group.get("a", default=None)
             if self._canonical_empty is not None:
@@ -644,7 +667,9 @@ class LowLevelFile:
                     != "canonical empty"
                     or ce_attrs.get("MATLAB_empty") != 1
                 ):
-                    del self._refs_group["a"]
+                    # It may be an element of a container, so it is
+                    # moved out of the way (references to it stay valid).
+                    self._rename_in_ref_group(self._refs_group, "a")
                     self._canonical_empty = None
             if self._canonical_empty is None:
                 self._canonical_empty = self._refs_group.create_dataset(
-- 
2.43.0


From ea04b769a496fe67d4891f8e82ff2eba68e2d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 32/49] fix: read sets and dicts whose elements or keys were
 discarded

---
 src/hdf5storage/Marshallers.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index d4e6632..a670129 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -64,6 +64,27 @@ else:
     from typing import Callable, Sequence
 
 
+def is_hashable(x: Any) -> bool:
+    """Whether an object can be in a set or be the key of a dict.
+
+    Parameters
+    ----------
+    x : Any
+        The object.
+
+    Returns
+    -------
+    yesno : bool
+        Whether it can be hashed.
+
+    """
+    try:
+        hash(x)
+    except TypeError:
+        return False
+    return True
+
+
 class TypeMarshaller:
     """Base class for marshallers of Python types.
 
@@ -2067,7 +2088,9 @@ class PythonDictMarshaller(TypeMarshaller):
             and escape_path(keys_values_names[1]) in grp2
         ):
             d = tuple(f.read_data(grp2, escape_path(k)) for k in keys_values_names)
-            items = list(zip(d[0], d[1]))
+            # Keys that were discarded for not being compatible with
+            # MATLAB are read as empty arrays, which can't be keys.
+            items = [(k, v) for k, v in zip(d[0], d[1]) if is_hashable(k)]
         else:
             # Construct the fields to grab and their proper order
             # (important for OrderedDict) from python_fields,
@@ -2499,6 +2522,10 @@ class PythonTupleSetDequeMarshaller(PythonListMarshaller):
         type_string = convert_attribute_to_string(attributes["Python.Type"])
         if type_string in self.typestring_to_type:
             tp = self.typestring_to_type[type_string]
+            # Elements that were discarded for not being compatible with
+            # MATLAB are read as empty arrays, which can't be in a set.
+            if tp in (set, frozenset):
+                data = [x for x in data if is_hashable(x)]
             return tp(data)  # type: ignore[operator]
         # Must be some other type, so return it as is.
         return data
-- 
2.43.0


From 8a2257d894f7846f582536386e383b3aa3e5b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 33/49] fix: leave no old value for and don't list discarded
 members

---
 src/hdf5storage/Marshallers.py | 41 +++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index a670129..bc74799 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -59,9 +59,9 @@ from .utilities import (
 )
 
 if sys.version_info >= (3, 9):
-    from collections.abc import Callable, Sequence
+    from collections.abc import Callable, Collection, Sequence
 else:
-    from typing import Callable, Sequence
+    from typing import Callable, Collection, Sequence
 
 
 def is_hashable(x: Any) -> bool:
@@ -878,7 +878,9 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # dtype.
         #
         # A flag, wrote_as_struct, is set depending on which path is
-        # taken, which is then passed onto write_metadata.
+        # taken, which is then passed onto write_metadata along with the
+        # fields that were discarded.
+        discarded: Set[str] = set()
         if (
             data_to_store.dtype.fields is not None
             and h5py.check_dtype(ref=data_to_store.dtype) is not h5py.Reference
@@ -976,6 +978,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                         esc_attrs,
                         np.prod(new_data4.shape) != 1,
                     )
+                else:
+                    discarded.add(field)
+                    # What was there before isn't part of the data.
+                    if esc_field in dsetgrp:
+                        del dsetgrp[esc_field]
         else:
             wrote_as_struct = False
 
@@ -1047,6 +1054,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             type_string,
             attributes=attributes,
             wrote_as_struct=wrote_as_struct,
+            discarded=discarded,
         )
         return dsetgrp
 
@@ -1058,10 +1066,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         type_string: Optional[str],
         attributes: Optional[Dict[str, Tuple[str, Any]]] = None,
         wrote_as_struct: bool = False,
+        discarded: Collection[str] = (),
     ) -> None:
         # wote_as_struct is used to pass whether data was written like a
         # matlab struct or not. If yes, then the field names must be put
-        # in the metadata.
+        # in the metadata except for the discarded ones.
 
         if attributes is None:
             attributes = {}
@@ -1113,7 +1122,9 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             )
         ):
             # Grab the list of fields and escape them.
-            field_names = [escape_path(c) for c in data.dtype.names]
+            field_names = [
+                escape_path(c) for c in data.dtype.names if c not in discarded
+            ]
 
             # Write or delete 'Python.Fields' as appropriate.
             if f.options.store_python_metadata:
@@ -1949,6 +1960,7 @@ class PythonDictMarshaller(TypeMarshaller):
         # be deleted).
         if f.options.matlab_compatible:
             grp2name = np.bytes_(grp2.name.encode("utf-8"))
+        discarded = set()
         for i, k in enumerate(names):
             obj = f.write_data(grp2, k, values[i], None)
             if obj is not None:
@@ -1958,6 +1970,25 @@ class PythonDictMarshaller(TypeMarshaller):
                 else:
                     with contextlib.suppress(KeyError):
                         del obj_attrs["H5PATH"]
+            else:
+                discarded.add(i)
+                # What was there before isn't part of the data.
+                if k in grp2:
+                    del grp2[k]
+
+        # Those that were discarded must not be listed.
+        if discarded:
+            self.write_metadata(
+                f,
+                grp2,
+                data,
+                type_string,
+                any_non_valid_str_keys=any_non_valid_str_keys,
+                keys_as_str=[k for i, k in enumerate(names) if i not in discarded],
+                key_str_types=b"".join(
+                    [tp for i, tp in enumerate(key_str_types) if i not in discarded],
+                ),
+            )
         # Done
         return grp2
 
-- 
2.43.0


From f06ac3c4fcc4ef15d93f488408bc31d54f1eed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 34/49] fix: keep the cached references group complete when
 interrupted

---
 src/hdf5storage/utilities.py | 72 ++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index a058bbd..82c0a98 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -424,16 +424,16 @@ class LowLevelFile:
         # and get its handle, while storing the handle and noting
         # whether we created it or not.
         if self._refs_group is None:
-            self._refs_group = self._f.get(
+            refs_group = self._f.get(
                 self._options.group_for_references,
                 default=None,
             )
-            if self._refs_group is None or not isinstance(self._refs_group, h5py.Group):
+            if refs_group is None or not isinstance(refs_group, h5py.Group):
                 # It doesn't exist yet or isn't a Group, so it needs to
                 # be created (and deleted if it is something else).
-                if self._refs_group is not None:
+                if refs_group is not None:
                     del self._f[self._options.group_for_references]
-                self._refs_group = self._f.create_group(
+                refs_group = self._f.create_group(
                     self._options.group_for_references,
                 )
                 self._created_refs_group = True
@@ -442,7 +442,9 @@ class LowLevelFile:
                 self._created_refs_group = False
             # Get the name if we don't have it.
             if self._refs_group_name is None:
-                self._refs_group_name = self._refs_group.name
+                self._refs_group_name = refs_group.name
+            # It is set last so that an interruption leaves it unset.
+            self._refs_group = refs_group
 
         # The Dataset 'a' needs to be present as the canonical empty. It
         # is just a np.uint32/64([0, 0]) with its a MATLAB_class of
@@ -450,15 +452,15 @@ class LowLevelFile:
         # isn't present or is incorrectly formatted, it is created
         # after moving anything previously there to another name.
         if self._canonical_empty is None:
-            self._canonical_empty = self._refs_group.get("a", default=None)
-            if self._canonical_empty is not None:
-                ce_attrs = self._canonical_empty.attrs
+            canonical_empty = self._refs_group.get("a", default=None)
+            if canonical_empty is not None:
+                ce_attrs = canonical_empty.attrs
                 if (
-                    not isinstance(self._canonical_empty, h5py.Dataset)
-                    or self._canonical_empty.shape != (2,)
-                    or not self._canonical_empty.dtype.name.startswith("uint")
+                    not isinstance(canonical_empty, h5py.Dataset)
+                    or canonical_empty.shape != (2,)
+                    or not canonical_empty.dtype.name.startswith("uint")
                     or np.any(
-                        self._canonical_empty[...] != np.array([0, 0], dtype=np.uint64),
+                        canonical_empty[...] != np.array([0, 0], dtype=np.uint64),
                     )
                     or convert_attribute_to_string(ce_attrs.get("MATLAB_class"))
                     != "canonical empty"
@@ -467,15 +469,17 @@ class LowLevelFile:
                     # It may be an element of a container, so it is
                     # moved out of the way (references to it stay valid).
                     self._rename_in_ref_group(self._refs_group, "a")
-                    self._canonical_empty = None
-            if self._canonical_empty is None:
-                self._canonical_empty = self._refs_group.create_dataset(
+                    canonical_empty = None
+            if canonical_empty is None:
+                canonical_empty = self._refs_group.create_dataset(
                     "a",
                     data=np.array([0, 0], dtype=np.uint64),
                 )
-                ce_attrs = self._canonical_empty.attrs
+                ce_attrs = canonical_empty.attrs
                 ce_attrs.modify("MATLAB_class", np.bytes_("canonical empty"))
                 ce_attrs.modify("MATLAB_empty", np.uint8(1))
+            # It is set last so that an interruption leaves it unset.
+            self._canonical_empty = canonical_empty
 
         # We need to grab the special reference dtype and make an empty
         # array to store all the references in.
@@ -627,16 +631,16 @@ class LowLevelFile:
         # and get its handle, while storing the handle and noting
         # whether we created it or not.
         if self._refs_group is None:
-            self._refs_group = self._f.get(
+            refs_group = self._f.get(
                 self._options.group_for_references,
                 default=None,
             )
-            if self._refs_group is None or not isinstance(self._refs_group, h5py.Group):
+            if refs_group is None or not isinstance(refs_group, h5py.Group):
                 # It doesn't exist yet or isn't a Group, so it needs to
                 # be created (and deleted if it is something else).
-                if self._refs_group is not None:
+                if refs_group is not None:
                     del self._f[self._options.group_for_references]
-                self._refs_group = self._f.create_group(
+                refs_group = self._f.create_group(
                     self._options.group_for_references,
                 )
                 self._created_refs_group = True
@@ -645,7 +649,9 @@ class LowLevelFile:
                 self._created_refs_group = False
             # Get the name if we don't have it.
             if self._refs_group_name is None:
-                self._refs_group_name = self._refs_group.name
+                self._refs_group_name = refs_group.name
+            # It is set last so that an interruption leaves it unset.
+            self._refs_group = refs_group
 
         # The Dataset 'a' needs to be present as the canonical empty. It
         # is just a np.uint32/64([0, 0]) with its a MATLAB_class of
@@ -653,15 +659,15 @@ class LowLevelFile:
         # isn't present or is incorrectly formatted, it is created
         # after moving anything previously there to another name.
         if self._canonical_empty is None:
-            self._canonical_empty = self._refs_group.get("a", default=None)
-            if self._canonical_empty is not None:
-                ce_attrs = self._canonical_empty.attrs
+            canonical_empty = self._refs_group.get("a", default=None)
+            if canonical_empty is not None:
+                ce_attrs = canonical_empty.attrs
                 if (
-                    not isinstance(self._canonical_empty, h5py.Dataset)
-                    or self._canonical_empty.shape != (2,)
-                    or not self._canonical_empty.dtype.name.startswith("uint")
+                    not isinstance(canonical_empty, h5py.Dataset)
+                    or canonical_empty.shape != (2,)
+                    or not canonical_empty.dtype.name.startswith("uint")
                     or np.any(
-                        self._canonical_empty[...] != np.array([0, 0], dtype=np.uint64),
+                        canonical_empty[...] != np.array([0, 0], dtype=np.uint64),
                     )
                     or convert_attribute_to_string(ce_attrs.get("MATLAB_class"))
                     != "canonical empty"
@@ -670,15 +676,17 @@ class LowLevelFile:
                     # It may be an element of a container, so it is
                     # moved out of the way (references to it stay valid).
                     self._rename_in_ref_group(self._refs_group, "a")
-                    self._canonical_empty = None
-            if self._canonical_empty is None:
-                self._canonical_empty = self._refs_group.create_dataset(
+                    canonical_empty = None
+            if canonical_empty is None:
+                canonical_empty = self._refs_group.create_dataset(
                     "a",
                     data=np.array([0, 0], dtype=np.uint64),
                 )
-                ce_attrs = self._canonical_empty.attrs
+                ce_attrs = canonical_empty.attrs
                 ce_attrs.modify("MATLAB_class", np.bytes_("canonical empty"))
                 ce_attrs.modify("MATLAB_empty", np.uint8(1))
+            # It is set last so that an interruption leaves it unset.
+            self._canonical_empty = canonical_empty
 
         # We need to make a random name and check for collisions.
         #
-- 
2.43.0


From 8645dda8eda626944904e509cdb2f332265c3858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 35/49] fix: create the target of a dangling symbolic link when
 opening it for writing

---
 src/hdf5storage/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 06c874e..115de69 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1709,11 +1709,16 @@ class File(collections.abc.MutableMapping):
             #
             # A file that seems not to exist is created exclusively so
             # that one that appears meanwhile, or that could not be
-            # looked up, is not truncated.
+            # looked up, is not truncated. Exclusive creation doesn't
+            # follow symbolic links, so they have to be resolved.
             if truncate_existing:
                 self._file = h5py.File(filename, mode="w", userblock_size=512)
             elif not os.path.isfile(filename):
-                self._file = h5py.File(filename, mode="x", userblock_size=512)
+                self._file = h5py.File(
+                    os.path.realpath(filename),
+                    mode="x",
+                    userblock_size=512,
+                )
             else:
                 self._file = h5py.File(filename, mode="a")
                 if (
-- 
2.43.0


From fd19a9cbb94d7c0eeb1c5166bdcc8bf63f758157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 36/49] fix: accept lists as separated paths when writing

---
 src/hdf5storage/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 115de69..7cf0f41 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1873,6 +1873,12 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
+        # Separated paths can be in Sequences that can't be keys.
+        if isinstance(path, collections.abc.Sequence) and not isinstance(
+            path,
+            collections.abc.Hashable,
+        ):
+            path = tuple(path)
         self.writes({path: data})
 
     def writes(self: "File", mdict: Mapping[pathesc.Path, Any]) -> None:
@@ -2236,7 +2242,7 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
-        self.writes({path: data})
+        self.write(data, path)
 
     def __delitem__(self: "File", path: pathesc.Path) -> None:
         """Deletes one path from the file.
-- 
2.43.0


From fec3c7ae20c7873e94f2ccea66860d485bdc9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 37/49] fix: keep the name of an element that is being written
 from its own elements

---
 src/hdf5storage/utilities.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 82c0a98..cbd9a53 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -39,7 +39,7 @@ import copy
 import posixpath
 import random
 import sys
-from typing import Any, Dict, List, Optional, Tuple, Type, Union
+from typing import Any, Dict, List, Optional, Set, Tuple, Type, Union
 
 import h5py
 import numpy as np
@@ -200,6 +200,9 @@ class LowLevelFile:
         # Length in characters we will use for random names in the
         # references Group.
         self._refs_group_name_length: int = 16
+        # The names that were generated for objects in the references
+        # Group that are still being written.
+        self._refs_group_reserved_names: Set[str] = set()
 
     @property
     def f(self: "LowLevelFile") -> h5py.File:
@@ -501,7 +504,13 @@ class LowLevelFile:
         data_refs_flat = data_refs.reshape(-1)
         for index, x in enumerate(data.flat):
             name_for_ref = self.next_unused_ref_group_name()
-            obj = self.write_data(self._refs_group, name_for_ref, x, None)
+            # The names for the elements of x are generated before x
+            # itself is written, so its name has to be kept for it.
+            self._refs_group_reserved_names.add(name_for_ref)
+            try:
+                obj = self.write_data(self._refs_group, name_for_ref, x, None)
+            finally:
+                self._refs_group_reserved_names.discard(name_for_ref)
             if obj is not None:
                 data_refs_flat[index] = obj.ref
                 obj_attrs = obj.attrs
@@ -702,7 +711,7 @@ class LowLevelFile:
         fmt = f"%0{self._refs_group_name_length}x"
         bits = self._refs_group_name_length * 4
         name = fmt % random.getrandbits(bits)
-        while name in self._refs_group:
+        while name in self._refs_group or name in self._refs_group_reserved_names:
             name = fmt % random.getrandbits(bits)
         return name
 
-- 
2.43.0


From fbbcc30a9394be5a5e282d2552fb6447a3bb44e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 38/49] fix: mark a Counter as a MATLAB struct

---
 src/hdf5storage/Marshallers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index bc74799..efb1a75 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1840,6 +1840,7 @@ class PythonDictMarshaller(TypeMarshaller):
         self.__MATLAB_classes: Dict[Type[Any], str] = {
             dict: "struct",
             collections.OrderedDict: "struct",
+            collections.Counter: "struct",
         }
         # Set matlab_classes to empty since NumpyScalarArrayMarshaller
         # handles Groups by default now.
-- 
2.43.0


From f03809e4a401e2b804ff2d66a1e62e3a4cb2d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 39/49] fix: set the decode attribute of empty strings and
 logicals as for others

---
 src/hdf5storage/Marshallers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index efb1a75..9f95464 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1179,7 +1179,14 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             elif tp in self.__MATLAB_classes:
                 attributes["MATLAB_class"] = ("string", self.__MATLAB_classes[tp])
                 if tp in (np.bytes_, np.str_, np.bool_):
-                    if dsetgrp.dtype.type == np.bytes_:
+                    if "MATLAB_empty" in attributes:
+                        # The shape is what is stored, so the stored
+                        # elements aren't those of the type.
+                        attributes["MATLAB_int_decode"] = (
+                            "value",
+                            np.int64(1 if tp is np.bool_ else 2),
+                        )
+                    elif dsetgrp.dtype.type == np.bytes_:
                         attributes["MATLAB_int_decode"] = ("value", 1)
                     else:
                         attributes["MATLAB_int_decode"] = (
-- 
2.43.0


From 9a7369776cbbba64ff8ab282830382fffade1799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 40/49] fix: add none of the marshallers when one is refused

---
 src/hdf5storage/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 7cf0f41..55f8d8a 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1338,12 +1338,15 @@ class MarshallerCollection:
         """
         if not isinstance(marshallers, collections.abc.Iterable):
             marshallers = [marshallers]
+        # Either all of them are added or none.
+        marshallers = tuple(marshallers)
         for m in marshallers:
             if not isinstance(m, Marshallers.TypeMarshaller):
                 raise TypeError(
                     "Each marshaller must inherit from "
                     "hdf5storage.Marshallers.TypeMarshaller.",
                 )
+        for m in marshallers:
             if m not in self._user_marshallers:
                 self._user_marshallers.append(m)
         self._update_marshallers()
-- 
2.43.0


From 306455faec7f990edfef7b63c955edfc76ddc656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 41/49] fix: take modules whose import fails in any way as
 missing

---
 src/hdf5storage/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 55f8d8a..f270cee 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1212,12 +1212,13 @@ class MarshallerCollection:
         self._imported_required_modules = len(self._marshallers) * [False]
 
         for i, m in enumerate(self._marshallers):
-            # Check if the required modules are here.
+            # Check if the required modules are here. Whatever goes wrong
+            # when looking for one, it can't be imported.
             try:
                 for name in m.required_parent_modules:
                     if name not in sys.modules and pkgutil.find_loader(name) is None:
                         raise ImportError("module not present")
-            except ImportError:
+            except Exception:
                 self._has_required_modules[i] = False
             else:
                 self._has_required_modules[i] = True
@@ -1299,7 +1300,8 @@ class MarshallerCollection:
             for name in m.required_modules:
                 if name not in sys.modules:
                     importlib.import_module(name)
-        except ImportError:
+        except Exception:
+            # Whatever goes wrong in it, the module can't be imported.
             return False
         return True
 
-- 
2.43.0


From 66d0e2f50de1e133e0f23e943c3fbc0b341fb760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 42/49] fix: look again for modules that a marshaller was
 missing

---
 src/hdf5storage/__init__.py | 97 +++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 37 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index f270cee..058e14d 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1212,16 +1212,8 @@ class MarshallerCollection:
         self._imported_required_modules = len(self._marshallers) * [False]
 
         for i, m in enumerate(self._marshallers):
-            # Check if the required modules are here. Whatever goes wrong
-            # when looking for one, it can't be imported.
-            try:
-                for name in m.required_parent_modules:
-                    if name not in sys.modules and pkgutil.find_loader(name) is None:
-                        raise ImportError("module not present")
-            except Exception:
-                self._has_required_modules[i] = False
-            else:
-                self._has_required_modules[i] = True
+            # Check if the required modules are here.
+            self._has_required_modules[i] = self._find_marshaller_modules(m)
 
             # Modules obviously can't be fully loaded if not all are
             # present.
@@ -1280,6 +1272,61 @@ class MarshallerCollection:
                 if matlab_class not in self._matlab_classes:
                     self._matlab_classes[matlab_class] = i
 
+    @staticmethod
+    def _find_marshaller_modules(m: Marshallers.TypeMarshaller) -> bool:
+        """Looks for the parent modules required by the marshaller.
+
+        Parameters
+        ----------
+        m : marshaller
+            The marshaller to look for the parent modules of.
+
+        Returns
+        -------
+        found : bool
+            Whether the parent modules `m` requires are present or not.
+
+        """
+        try:
+            for name in m.required_parent_modules:
+                if name not in sys.modules and pkgutil.find_loader(name) is None:
+                    return False
+        except Exception:
+            # Whatever goes wrong when looking for it, it can't be
+            # imported.
+            return False
+        return True
+
+    def _get_marshaller(
+        self: "MarshallerCollection",
+        index: int,
+    ) -> Tuple[Marshallers.TypeMarshaller, bool]:
+        """Gets a marshaller, loading the modules it requires.
+
+        Modules that were missing before are looked for again.
+
+        Parameters
+        ----------
+        index : int
+            The index of the marshaller in the full list.
+
+        Returns
+        -------
+        marshaller : marshaller
+            The marshaller.
+        has_required_modules : bool
+            Whether the modules it requires are loaded or not.
+
+        """
+        m = self._marshallers[index]
+        if not self._imported_required_modules[index]:
+            success = self._find_marshaller_modules(
+                m,
+            ) and self._import_marshaller_modules(m)
+            self._has_required_modules[index] = success
+            self._imported_required_modules[index] = success
+        return m, self._imported_required_modules[index]
+
     @staticmethod
     def _import_marshaller_modules(m: Marshallers.TypeMarshaller) -> bool:
         """Imports the modules required by the marshaller.
@@ -1425,15 +1472,7 @@ class MarshallerCollection:
             index = self._types[tp]
         else:
             return None, False
-        m = self._marshallers[index]
-        if self._imported_required_modules[index]:
-            return m, True
-        if not self._has_required_modules[index]:
-            return m, False
-        success = self._import_marshaller_modules(m)
-        self._has_required_modules[index] = success
-        self._imported_required_modules[index] = success
-        return m, success
+        return self._get_marshaller(index)
 
     def get_marshaller_for_type_string(
         self: "MarshallerCollection",
@@ -1466,15 +1505,7 @@ class MarshallerCollection:
         """
         if type_string in self._type_strings:
             index = self._type_strings[type_string]
-            m = self._marshallers[index]
-            if self._imported_required_modules[index]:
-                return m, True
-            if not self._has_required_modules[index]:
-                return m, False
-            success = self._import_marshaller_modules(m)
-            self._has_required_modules[index] = success
-            self._imported_required_modules[index] = success
-            return m, success
+            return self._get_marshaller(index)
         return None, False
 
     def get_marshaller_for_matlab_class(
@@ -1508,15 +1539,7 @@ class MarshallerCollection:
         """
         if matlab_class in self._matlab_classes:
             index = self._matlab_classes[matlab_class]
-            m = self._marshallers[index]
-            if self._imported_required_modules[index]:
-                return m, True
-            if not self._has_required_modules[index]:
-                return m, False
-            success = self._import_marshaller_modules(m)
-            self._has_required_modules[index] = success
-            self._imported_required_modules[index] = success
-            return m, success
+            return self._get_marshaller(index)
         return None, False
 
 
-- 
2.43.0


From 13313890f8b1772973e4a654e43aec301cbb2dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:50 +0000
Subject: [PATCH 43/49] fix: refuse to read objects that are inside of
 themselves

---
 src/hdf5storage/utilities.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index cbd9a53..03baf56 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -203,6 +203,8 @@ class LowLevelFile:
         # The names that were generated for objects in the references
         # Group that are still being written.
         self._refs_group_reserved_names: Set[str] = set()
+        # The objects that are being read, each inside of the one before.
+        self._objects_being_read: Set[Union[h5py.Dataset, h5py.Group]] = set()
 
     @property
     def f(self: "LowLevelFile") -> h5py.File:
@@ -377,13 +379,26 @@ class LowLevelFile:
             # use Numpy as a fallback
             m, has_modules = mc.get_marshaller_for_type(np.uint8)
 
+        # An object that is stored inside of itself has no end. As errors
+        # when reading members aren't always passed on, trying to read it
+        # could take forever.
+
+        if dsetgrp in self._objects_being_read:
+            raise hdf5storage.exceptions.CantReadError(
+                f"Could not read {dsetgrp.name}, which is inside of itself.",
+            )
+
         # If a marshaller was found, use it to read the data. Otherwise,
         # return an error.
 
         if m is not None:
-            if has_modules:
-                return m.read(self, dsetgrp, attributes)
-            return m.read_approximate(self, dsetgrp, attributes)
+            self._objects_being_read.add(dsetgrp)
+            try:
+                if has_modules:
+                    return m.read(self, dsetgrp, attributes)
+                return m.read_approximate(self, dsetgrp, attributes)
+            finally:
+                self._objects_being_read.discard(dsetgrp)
         raise hdf5storage.exceptions.CantReadError("Could not read " + dsetgrp.name)
 
     def write_object_array(
-- 
2.43.0


From 32110eca6767415e00e350e72d9050e910d9dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:54 +0000
Subject: [PATCH 44/49] fix: normalise the path of the group for references

---
 src/hdf5storage/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 058e14d..b517e41 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -725,9 +725,11 @@ class Options:
         # set it. If it is something other than "/#refs#", then we are
         # not doing MATLAB compatible formatting.
         if isinstance(value, str):
-            pth = posixpath.normpath(value)
-            if len(pth) > 1 and posixpath.isabs(pth):
-                self._group_for_references = value
+            # It must have just one form because it is compared to other
+            # paths (normpath leaves two leading slashes as they are).
+            pth = "/" + posixpath.normpath(value).lstrip("/")
+            if len(pth) > 1 and posixpath.isabs(value):
+                self._group_for_references = pth
         if self._group_for_references != "/#refs#":
             self._matlab_compatible = False
 
-- 
2.43.0


From e65d31d039122e22b4fbbb4dc26b9b4a954167ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:17 +0000
Subject: [PATCH 45/49] fix: replace datasets whose HDF5 type differs from that
 of the data

---
 src/hdf5storage/Marshallers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 9f95464..0a33674 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1033,6 +1033,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 if (
                     not isinstance(dsetgrp, h5py.Dataset)
                     or dsetgrp.dtype != data_to_store.dtype
+                    or dsetgrp.id.get_type()
+                    != h5py.h5t.py_create(data_to_store.dtype, logical=True)
                     or dsetgrp.shape != data_to_store.shape
                     or dsetgrp.compression != filters["compression"]
                     or dsetgrp.shuffle != filters["shuffle"]
-- 
2.43.0


From 0645d064a8aff541e77b358fb7395da468c41484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 46/49] fix: do not store structured arrays in the form of
 complex ones

---
 src/hdf5storage/Marshallers.py |  4 +++-
 src/hdf5storage/utilities.py   | 36 ++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 0a33674..b528b4a 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -54,6 +54,7 @@ from .utilities import (
     convert_to_str,
     decode_complex,
     does_dtype_have_a_zero_shape,
+    does_dtype_look_complex,
     encode_complex,
     set_attributes_all,
 )
@@ -875,7 +876,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # converting that field to a HDF5 Reference types, it will just
         # be written as a Group instead (dtypes have a useful hasobject
         # method). The same goes for if there is a null inside its
-        # dtype.
+        # dtype or if it would be taken for a complex type.
         #
         # A flag, wrote_as_struct, is set depending on which path is
         # taken, which is then passed onto write_metadata along with the
@@ -891,6 +892,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     data_to_store.dtype.hasobject or "\\x00" in str(data_to_store.dtype)
                 )
                 or does_dtype_have_a_zero_shape(data_to_store.dtype)
+                or does_dtype_look_complex(data_to_store.dtype)
             )
         ):
             wrote_as_struct = True
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 03baf56..d78583c 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -99,6 +99,42 @@ def does_dtype_have_a_zero_shape(dt: np.dtype) -> bool:
     return False
 
 
+def does_dtype_look_complex(dt: np.dtype) -> bool:
+    """Determine whether a dtype (or its fields) would be read as complex.
+
+    Determines whether the given ``numpy.dtype`` is, or contains however
+    nested, a structured dtype that ``h5py`` stores just like it stores
+    complex numbers and thus reads back as them.
+
+    Parameters
+    ----------
+    dt : numpy.dtype
+        The dtype to check.
+
+    Returns
+    -------
+    yesno : bool
+        Whether `dt` or one of its fields looks like a complex dtype.
+
+    """
+    complex_names = tuple(h5py.get_config().complex_names)
+    components = [dt]
+    while len(components) != 0:
+        c = components.pop()
+        if c.fields is not None:
+            fields = [v[0] for v in c.fields.values()]
+            if (
+                c.names == complex_names
+                and fields[0] == fields[1]
+                and fields[0].kind == "f"
+            ):
+                return True
+            components.extend(fields)
+        if c.base != c:
+            components.append(c.base)
+    return False
+
+
 def read_all_attributes_into(
     attrs: h5py.AttributeManager,
     out: MutableMapping[str, Any],
-- 
2.43.0


From bc6e78b1ddfbec07844999b1d40d8d996b85d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:52 +0000
Subject: [PATCH 47/49] fix: keep the field types of empty structured arrays
 stored with them

---
 src/hdf5storage/Marshallers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b528b4a..c497110 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1429,6 +1429,12 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                         nchars = int(int(underlying_type[len("str") :]) / 32)
                     data = np.zeros(tuple(shape), dtype="U" + str(nchars))
                 elif struct_dtype is not None:
+                    # If it was stored with the types of its fields, they
+                    # are kept.
+                    if isinstance(dset, h5py.Dataset) and data.dtype.names == tuple(
+                        fields,
+                    ):
+                        struct_dtype = data.dtype
                     data = np.zeros(tuple(shape), dtype=struct_dtype)
                 else:
                     data = np.zeros(tuple(shape), dtype=underlying_type)
-- 
2.43.0


From 44b69aba02247219ea54dccb665029bb85f62d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:41 +0000
Subject: [PATCH 48/49] fix: write nested fields of recarrays

---
 src/hdf5storage/Marshallers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index c497110..f9aa209 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -757,7 +757,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # recarrays must be converted to structured ndarrays in order
         # for h5py to be able to write them.
         if isinstance(data_to_store, np.core.records.recarray):
-            data_to_store = data_to_store.view(np.ndarray)
+            data_to_store = data_to_store.view(
+                np.dtype((np.void, data_to_store.dtype)),
+                np.ndarray,
+            )
 
         # Optionally convert bytes_ strings to UTF-16, if possible (all
         # are in the ASCII character set). This is done by simply
-- 
2.43.0


From 88f25cf281f88239a97a6ce159d7e841e780384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:20 +0000
Subject: [PATCH 49/49] fix: do not take a failure for a field of mixed types

---
 src/hdf5storage/Marshallers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index f9aa209..be48683 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1349,7 +1349,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                         if dt != x.dtype or sp != x.shape:
                             all_same = False
                             break
-                except:
+                except AttributeError:
                     all_same = False
 
                 # If they are all the same, then dt and shape should be
-- 
2.43.0

