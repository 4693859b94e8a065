From 450df1d5f7dc2783813284ff70e9264b7fb151f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:56 +0000
Subject: [PATCH 01/38] fix: item and class names must match the whole naming
 pattern

A name ending with a newline was accepted (the $ anchor allows it), and an
attribute value that is not text stopped the validation with TypeError.
---
 punx/validations/item_name.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 9d31d90..29e84e9 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -110,10 +110,11 @@ def handle_NX_class(validator, v_item):
     status = finding.ERROR
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
-            validator.regexp_cache[k] = re.compile("^" + p + "$")
+            validator.regexp_cache[k] = re.compile(p)
         s = utils.decode_byte_string(v_item.h5_object)
-        m = validator.regexp_cache[k].match(s)
-        matches = m is not None and m.string == s
+        matches = (
+            isinstance(s, str) and validator.regexp_cache[k].fullmatch(s) is not None
+        )
         msg = "checking %s with %s: %s" % (v_item.h5_address, k, str(matches))
         logger.debug(msg)
         if matches:
@@ -154,11 +155,12 @@ def validItemName_match_key(validator, text):
     patterns = getValidItemNamePatterns(validator)
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
-            validator.regexp_cache[k] = re.compile("^" + p + "$")
+            validator.regexp_cache[k] = re.compile(p)
 
         s = utils.decode_byte_string(text)
-        m = validator.regexp_cache[k].match(s)
-        matches = m is not None and m.string == s
+        matches = (
+            isinstance(s, str) and validator.regexp_cache[k].fullmatch(s) is not None
+        )
         logger.debug("checking %s with %s: %s", s, k, str(matches))
         if matches:
             return k
-- 
2.43.0


From 47ccaa57d37e4b6dab2349edafc78453ef374e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 02/38] fix: decode HDF5 text as UTF-8

Fixed-length strings were decoded with the encoding of the terminal, and arrays
of them as ASCII, so a NeXus file with non-ASCII text was misread or stopped
the program with UnicodeDecodeError.
---
 punx/utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 319fd0a..bc94808 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -30,7 +30,6 @@ import h5py
 import logging
 import os
 import numpy
-import sys
 
 
 def decode_byte_string(value):
@@ -44,15 +43,23 @@ def decode_byte_string(value):
     """
     if (isinstance(value, numpy.ndarray) and value.dtype.kind in ['O', 'S']):
         if value.size > 0:
-            return value.astype('U').tolist()
+            return _decode_items(value.tolist())
         else:
             return None
     elif isinstance(value, (bytes, numpy.bytes_)):
-        return value.decode(sys.stdout.encoding or "utf8")
+        # HDF5 text is UTF-8 (no matter what the terminal uses)
+        return value.decode("utf8", "surrogateescape")
     else:
         return value
 
 
+def _decode_items(item):
+    """Decode the (nested) content of an array of text."""
+    if isinstance(item, list):
+        return [_decode_items(v) for v in item]
+    return str(decode_byte_string(item))
+
+
 def string_list_to_hdf5(string_list):
     """
     converts string lists (incl unicode) to h5py-compatible
-- 
2.43.0


From 68a2b7570be0f09f893f076200ae31ed0f3026a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 03/38] fix: a @target attribute that is not text stopped
 validation

---
 punx/utils.py                 | 2 +-
 punx/validations/item_name.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index bc94808..a8cf945 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -151,7 +151,7 @@ def isNeXusDataset(obj):
 def isNeXusLink(obj):
     """Is `obj` linked to another NeXus item?"""
     target = decode_byte_string(obj.attrs.get("target", ""))
-    return len(target) > 0 and target != obj.name
+    return isinstance(target, str) and len(target) > 0 and target != obj.name
 
 
 def setup_logger(log_name, level=None):
diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 29e84e9..0e862a5 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -36,7 +36,7 @@ def isNeXusLinkTarget(v_item):
     if "target" in v_item.h5_object.attrs:
         source_name = utils.decode_byte_string(v_item.h5_address)
         target_name = utils.decode_byte_string(v_item.h5_object.attrs["target"])
-        return target_name != source_name
+        return isinstance(target_name, str) and target_name != source_name
     return False  # no @target attribute at all
 
 
-- 
2.43.0


From 3f79d099493cb361c0544c2f52ab42097f4a3bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 04/38] fix: NX_class naming a contributed application
 definition stopped validation

TypeError: 'odict_values' object is not subscriptable
---
 punx/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index a9de31f..e6b0b89 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -383,7 +383,7 @@ class Data_File_Validator(object):
             and len(nxdl_def.links) == 0
             and len(nxdl_def.groups) == 1
         ):  # maybe ...
-            entry_group = nxdl_def.groups.values()[0]
+            entry_group = list(nxdl_def.groups.values())[0]
             # TODO: test entry_group.NX_class == "NXentry" but that attribute is not ready yet!
             # assume OK
             return "definition" not in entry_group.fields
-- 
2.43.0


From 8535faf59c36499062e014cc6faac0ae26e19004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 05/38] fix: group whose NX_class ends with a slash stopped
 validation

Its child groups inherited the class path without their own class
(AttributeError: nx_class).
---
 punx/validate.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index e6b0b89..94ea7e4 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -478,27 +478,24 @@ class ValidationItem(object):
                 logger.log(INFORMATIVE, "%s is not NeXus content", h5_obj.name)
                 return CLASSPATH_OF_NON_NEXUS_CONTENT
 
-            if not classpath.endswith(SLASH):
-
-                if utils.isHdf5Group(h5_obj):
-                    nx_class = utils.decode_byte_string(
-                        h5_obj.attrs.get("NX_class"))
-
-                    if isinstance(nx_class, str) and nx_class.startswith("NX"):
-                        self.nx_class = nx_class  # only for groups
-                        logger.log(
-                            INFORMATIVE,
-                            "NeXus base class: " + nx_class,
-                        )
-                    else:
-                        logger.log(
-                            INFORMATIVE,
-                            "HDF5 group is not NeXus: " + self.h5_address,
-                        )
-                        return CLASSPATH_OF_NON_NEXUS_CONTENT
+            if utils.isHdf5Group(h5_obj):
+                nx_class = utils.decode_byte_string(h5_obj.attrs.get("NX_class"))
+
+                if isinstance(nx_class, str) and nx_class.startswith("NX"):
+                    self.nx_class = nx_class  # only for groups
+                    logger.log(
+                        INFORMATIVE,
+                        "NeXus base class: " + nx_class,
+                    )
                 else:
-                    nx_class = self.name
+                    logger.log(
+                        INFORMATIVE,
+                        "HDF5 group is not NeXus: " + self.h5_address,
+                    )
+                    return CLASSPATH_OF_NON_NEXUS_CONTENT
+            else:
+                nx_class = self.name
 
-                classpath += SLASH + nx_class
+            classpath += SLASH + nx_class
 
             return classpath
-- 
2.43.0


From 09dd62eab1f54d9da54e1ed01551a22ce1cbe204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 06/38] fix: a "@" in the name of a group or field stopped
 validation

A field named, for example, "x@NX_class" was handled as the NX_class attribute,
a field "target" below a group "a@b" as the target attribute.
---
 punx/validate.py              | 1 +
 punx/validations/attribute.py | 4 +++-
 punx/validations/item_name.py | 6 +++++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index 94ea7e4..30bc92a 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -399,6 +399,7 @@ class ValidationItem(object):
         self.parent = parent
         self.validations = {}  # validation findings go here
         self.h5_object = obj
+        self.is_attribute = attribute_name is not None
         if hasattr(obj, "name"):
             self.h5_address = obj.name
             if obj.name == SLASH:
diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index 9c809a8..049cd08 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -25,7 +25,9 @@ def verify(validator, v_item):
     if v_item.h5_address.find("@") < 0:
         return
 
-    handler = HANDLER_DICT.get(v_item.name) or generic_handler
+    handler = generic_handler
+    if v_item.is_attribute:
+        handler = HANDLER_DICT.get(v_item.name) or generic_handler
     handler(validator, v_item)
 
 
diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 0e862a5..52258e2 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -71,7 +71,11 @@ def verify(validator, v_item):
     if v_item.name in v_item.validations:
         return  # do not repeat this
 
-    if v_item.h5_address is not None and v_item.h5_address.endswith("@NX_class"):
+    if (
+        v_item.is_attribute
+        and v_item.h5_address is not None
+        and v_item.name == "NX_class"
+    ):
         handle_NX_class(validator, v_item)
 
     # attribute
-- 
2.43.0


From 138c6ef852c970d26b7b4917a71190b9c7169fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 07/38] fix: broken and circular links stopped validation

A soft or external link without its target raised KeyError, a link to one of
the groups that contain it was followed without end.
---
 punx/utils.py                                   | 10 ++++++++++
 punx/validate.py                                | 17 ++++++++++++++---
 .../hdf5_group_items_in_base_class.py           |  4 +++-
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index a8cf945..b5fa739 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -116,6 +116,16 @@ def __isHdf5ExternalLink(obj):
     return isinstance(obj, h5py.ExternalLink)
 
 
+def getHdf5Object(group, name):
+    """The HDF5 object to which `name` leads from `group`, or `None`."""
+    if not isinstance(name, str):
+        return None
+    try:
+        return group.get(name)
+    except (RuntimeError, ValueError):
+        return None  # circular links, or not possible as an HDF5 name
+
+
 def isNeXusFile(filename):
     """Is `filename` is a NeXus HDF5 file?"""
     if not os.path.exists(filename):
diff --git a/punx/validate.py b/punx/validate.py
index 30bc92a..e1ef8a1 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -278,6 +278,14 @@ class Data_File_Validator(object):
             self.classpaths[v.classpath].append(v)
             logger.log(INFORMATIVE, "NeXus classpath: " + v.classpath)
 
+        def is_ancestor(v, o):
+            """Is HDF5 group o (by some link) a group that contains v?"""
+            while v is not None:
+                if not v.is_attribute and v.h5_object == o:
+                    return True
+                v = v.parent
+            return False
+
         def get_subject(parent, o):
             v = ValidationItem(parent, o)
             self.addresses[v.h5_address] = v
@@ -292,10 +300,13 @@ class Data_File_Validator(object):
         obj = get_subject(parent, group)
         parent = self.classpaths[obj.classpath][-1]
         for item in group:
-            if utils.isHdf5Group(group[item]):
-                self._group_address_catalog_(parent, group[item])
+            child = utils.getHdf5Object(group, item)
+            if child is None:
+                continue  # link that leads nowhere
+            if utils.isHdf5Group(child) and not is_ancestor(parent, child):
+                self._group_address_catalog_(parent, child)
             else:
-                get_subject(parent, group[item])
+                get_subject(parent, child)
 
     def validate_item_name(self, v_item):
         from .validations import item_name
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index b98be6f..ef4d0bd 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -119,7 +119,9 @@ def verify_group_attributes(validator, v_item, base_class):
 def verify_group_children(validator, v_item, base_class):
     """verify the group's children (groups, fields)"""
     for child_name in v_item.h5_object:
-        obj = v_item.h5_object[child_name]
+        obj = utils.getHdf5Object(v_item.h5_object, child_name)
+        if obj is None or obj.name not in validator.addresses:
+            continue  # not in the catalog: link to nowhere, or below a circular link
         v_sub_item = validator.addresses[obj.name]
         # TODO: need an algorithm to know if v_item is defined in base class
 
-- 
2.43.0


From 28d16e5ece51ca06728f8e8ee628cbce2158e649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 08/38] fix: attribute values that are not text (or not a local
 name) stopped validation

@axes of a dataset, numbers or empty values of @axes, @signal, @target and
@NX_class, and links that cannot be followed are now findings.
---
 punx/validations/attribute.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index 049cd08..c2da62e 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -61,6 +61,11 @@ def axes_handler(validator, v_item):
     """
     validate @axes
     """
+    h5parent = v_item.parent.h5_object
+    if not (utils.isHdf5Group(h5parent) or utils.isHdf5FileObject(h5parent)):
+        # describes a dataset, does not name fields of a group
+        generic_handler(validator, v_item)
+        return
     axes_attr = utils.decode_byte_string(v_item.h5_object)
     if not isinstance(axes_attr, (list, numpy.ndarray)):
         axes_attr = [axes_attr]  # ensure it is array
@@ -81,8 +86,7 @@ def axes_handler(validator, v_item):
 
         # check axis_name names local field (in this group)
         test_name = f"axes['{axis_name}'] exists"
-        h5parent = v_item.parent.h5_object
-        if h5parent.get(axis_name) is not None:
+        if utils.getHdf5Object(h5parent, axis_name) is not None:
             status = finding.OK
             k = "found field for named axis"
         else:
@@ -97,9 +101,11 @@ def axes_handler(validator, v_item):
 def nxclass_handler(validator, v_item):
     """validate @NX_class"""
     nx_class = utils.decode_byte_string(v_item.h5_object)
-    nxdl = validator.manager.classes.get(nx_class)
+    nxdl = None
+    if isinstance(nx_class, str):
+        nxdl = validator.manager.classes.get(nx_class)
     if nxdl is None:
-        c = "not a recognized NXDL class: " + nx_class
+        c = "not a recognized NXDL class: " + str(nx_class)
         status = finding.ERROR
     elif isBaseClassNXDL(nxdl):
         c = "recognized NXDL base class: " + nx_class
@@ -123,7 +129,7 @@ def signal_handler(validator, v_item):
     signal = utils.decode_byte_string(v_item.h5_object)
     if utils.isNeXusDataset(v_item.parent.h5_object):
         if (
-            str(signal).isdigit() and int(signal) == 1
+            str(signal).isdecimal() and int(str(signal)) == 1
         ):  # could error if signal is other text!
             status = finding.OK
             c = "found plottable data marker"
@@ -133,7 +139,7 @@ def signal_handler(validator, v_item):
         validator.record_finding(v_item, TEST_NAME, status, c)
     elif utils.isHdf5Group(v_item.parent.h5_object):
         k = item_name.validItemName_match_key(validator, signal)
-        test_name = "valid name @signal=" + signal
+        test_name = "valid name @signal=" + str(signal)
         if k is None:
             status = finding.ERROR
             k = "not a valid NeXus name"
@@ -144,10 +150,10 @@ def signal_handler(validator, v_item):
                 status = finding.NOTE
         validator.record_finding(v_item, test_name, status, k)
 
-        test = signal in v_item.parent.h5_object
+        test = utils.getHdf5Object(v_item.parent.h5_object, signal) is not None
         status = finding.TF_RESULT[test]
         c = {True: "found", False: "not found"}[test]
-        c += ": @signal=" + signal
+        c += ": @signal=" + str(signal)
         validator.record_finding(v_item, TEST_NAME, status, c)
     else:
         generic_handler(validator, v_item)
@@ -157,7 +163,7 @@ def target_handler(validator, v_item):
     """validate @target"""
     target = utils.decode_byte_string(v_item.h5_object)
 
-    if not target.startswith("/"):
+    if not isinstance(target, str) or not target.startswith("/"):
         status = finding.ERROR
         c = 'value be must absolute HDF5 address, start with "/"'
         validator.record_finding(v_item, TEST_NAME, status, c)
@@ -172,13 +178,13 @@ def target_handler(validator, v_item):
             return
         else:
             addr += "/" + p
-            if addr not in validator.h5:
+            if utils.getHdf5Object(validator.h5, addr) is None:
                 status = finding.ERROR
                 c = "partial HDF5 address not found in file: " + addr
                 validator.record_finding(v_item, TEST_NAME, status, c)
                 return
 
-    test = target in validator.h5
+    test = utils.getHdf5Object(validator.h5, target) is not None
     status = finding.TF_RESULT[test]
     c = {True: "found", False: "not found"}[test]
     c += ": @target=" + target
-- 
2.43.0


From 2c3a5381f01b19238f70f6bf996de65e81166c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 09/38] fix: base class attributes whose value is not text
 stopped validation

Also, @target in a base class is looked up in the catalog of the data file.
---
 punx/validations/hdf5_group_items_in_base_class.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index ef4d0bd..d686d4a 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -22,7 +22,7 @@ def verify(validator, v_item, base_class):
 
 def child_exists(validator, test_name, v, v_item, a_item):
     """Is v a child of v_item?"""
-    found = v in v_item.h5_object
+    found = utils.getHdf5Object(v_item.h5_object, v) is not None
     if found:
         status = finding.OK
         c = "found"
@@ -32,7 +32,7 @@ def child_exists(validator, test_name, v, v_item, a_item):
     c += ": " + v_item.h5_address
     if not c.endswith("/"):
         c += "/"
-    c += v
+    c += str(v)
     validator.record_finding(a_item, test_name, status, c)
 
 
@@ -67,13 +67,13 @@ def verify_group_attributes(validator, v_item, base_class):
         spec = base_class.attributes[k]
 
         if len(spec.enumerations) > 0:
-            match = v in spec.enumerations
+            match = isinstance(v, str) and v in spec.enumerations
             status = finding.TF_RESULT[match]
             if match:
                 c = "found"
             else:
                 c = "not found"
-            c += ": " + v
+            c += ": " + str(v)
             test_name = "attribute value enumeration"
             validator.record_finding(a_item, test_name, status, c)
             # TODO: ...
@@ -95,14 +95,14 @@ def verify_group_attributes(validator, v_item, base_class):
 
         elif k == "target":
             test_name = "value of @target"
-            found = v in v_item.manager.addresses
+            found = isinstance(v, str) and v in validator.addresses
             if found:
                 status = finding.OK
                 c = "found"
             else:
                 status = finding.ERROR
                 c = "not found"
-            c += ": " + v_item.h5_address + "/@target = " + v
+            c += ": " + v_item.h5_address + "/@target = " + str(v)
             validator.record_finding(a_item, test_name, status, c)
 
         elif k == "axes":
-- 
2.43.0


From 772ce05a39bbde027e723b66852e1ded07dd4109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 10/38] fix: finding for a file without default plot depended
 on earlier validations

A file without any NXentry group was reported as ERROR by a new validator and as
NOTE by one that had validated a file with an NXentry group before.
---
 punx/validations/default_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 3fc38a8..6c56576 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -37,8 +37,8 @@ def verify(validator):
     if status is None:
         c = "no default plot described"
         data_group = validator.manager.classes["NXentry"].groups["data"]
-        if hasattr(data_group, "minOccurs"):
-            minOccurs = data_group.minOccurs
+        if "/NXentry" in validator.classpaths:
+            minOccurs = int(data_group.attributes.get("minOccurs", 0))
         else:
             minOccurs = 1
         if minOccurs > 0:
-- 
2.43.0


From 4116a15f80dfeb6e7955c9f275a0d5d75544332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 11/38] fix: some @default and @signal values stopped the
 search for the default plot

Values that are not text, that lead nowhere or that are not the plain name of
a field, and group names with "@".
---
 punx/validations/default_plot.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 6c56576..c6f7870 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -69,7 +69,7 @@ def default_plot_v3(validator):
             addr = v_item.h5_object.name
         if not addr.endswith("/"):
             addr += "/"
-        addr += utils.decode_byte_string(pointer)
+        addr += str(utils.decode_byte_string(pointer))
         return addr
 
     def attribute_points_at_target(v_item, attribute_name, v_target):
@@ -78,21 +78,24 @@ def default_plot_v3(validator):
         if pointer is None:
             return False
         addr = build_h5_address(v_item, pointer)
-        if addr not in v_item.h5_object:
+        if utils.getHdf5Object(v_item.h5_object, addr) is None:
             return False
         return v_target == addr
 
     test_name = "NeXus default plot v3"
-    short_list = list(validator.classpaths.get("/NXentry/NXdata@signal", []))
+    short_list = [
+        v_item
+        for v_item in validator.classpaths.get("/NXentry/NXdata@signal", [])
+        if v_item.is_attribute and utils.isHdf5Group(v_item.parent.h5_object)
+    ]
     # TODO: why not look at every NXdata@signal?
 
     h5_address = None
     niac2014_path = []
     for v_item in short_list:
         # check existence of @default attributes, as well
-        _root, entry, data = v_item.h5_address.split("@")[0].split("/")  # noqa
-        nxdata = validator.addresses["/" + entry + "/" + data]
-        nxentry = validator.addresses["/" + entry]
+        nxdata = v_item.parent
+        nxentry = nxdata.parent
         nxroot = validator.addresses["/"]
         signal_h5_addr = build_h5_address(nxdata, nxdata.h5_object.attrs["signal"])
         t1 = attribute_points_at_target(nxroot, "default", nxentry.h5_address)
@@ -103,7 +106,7 @@ def default_plot_v3(validator):
             c = "field described by @signal does not exist"
             validator.record_finding(v_item, test_name + ", NXdata@signal", status, c)
             return None  # fail to identify as plottable since @signal is misleading
-        t4 = utils.isNeXusDataset(validator.addresses[signal_h5_addr].h5_object)
+        t4 = utils.isNeXusDataset(validator.h5.get(signal_h5_addr))
         if t3 and t4:
             status = finding.OK
             c = "correct default plot setup in /NXentry/NXdata"
-- 
2.43.0


From 9f4465d6636c35e8569a24f1305edc51efc110b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 12/38] fix: default plot by @signal="1" not found when written
 as fixed-length string

---
 punx/validations/default_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index c6f7870..4721e8f 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -138,8 +138,8 @@ def default_plot_v2(validator):
     for k, v in validator.classpaths.items():
         if k.endswith("@signal"):
             for v_item in v:
-                if utils.isNeXusDataset(v_item.parent.h5_object):
-                    signal = str(v_item.h5_object)
+                if v_item.is_attribute and utils.isNeXusDataset(v_item.parent.h5_object):
+                    signal = str(utils.decode_byte_string(v_item.h5_object))
                     if signal == "1":
                         status = finding.OK
                         c = "found field with @signal=1: " + v_item.h5_address
-- 
2.43.0


From c99ad4efbade19e4697bb4968f0a590aac639250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 13/38] fix: validation with an application definition stopped
 on unexpected content

A missing field with enumerated values, a definition field that is empty, not
a dataset or names a base class.
---
 punx/validate.py                           |  2 ++
 punx/validations/application_definition.py | 30 ++++++++++++++--------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index e1ef8a1..7343dcb 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -254,6 +254,8 @@ class Data_File_Validator(object):
         for k in ("/NXentry/definition", "/NXentry/NXsubentry/definition"):
             if k in self.classpaths:
                 for v_item in self.classpaths[k]:
+                    if not utils.isHdf5Dataset(v_item.h5_object):
+                        continue
                     self.validate_application_definition(v_item.parent)
 
         # 4. check for default plot
diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 171c76d..70817b3 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -15,13 +15,23 @@ from .. import utils
 from ..validate import ValidationItem
 
 
+def first_value(h5_obj):
+    """
+    The value, or the first one of several, of a dataset (else: None).
+    """
+    if not utils.isHdf5Dataset(h5_obj):
+        return None
+    value = h5_obj[()]
+    if isinstance(value, (list, tuple, numpy.ndarray)):
+        value = value[0] if len(value) > 0 else None
+    return value
+
+
 def verify(validator, v_item):
     """
     Verify items specified in application definition are present in HDF5 data file
     """
-    item = v_item.h5_object["definition"][()]
-    if isinstance(item, (list, tuple, numpy.ndarray)):
-        item = item[0]
+    item = first_value(v_item.h5_object["definition"])
     ad_name = str(utils.decode_byte_string(item))
     key = "NeXus application definition"
 
@@ -46,27 +56,27 @@ def verify(validator, v_item):
     validator.record_finding(v_item, key, finding.TODO, c)
 
     # TODO: groups, attributes, links, type, ... in separate functions
+    if status == finding.ERROR or len(ad.groups) == 0:
+        return
     ad_entry = list(ad.groups.values())[
         0
     ]  # only 1 at this level of the application definition (ad)
     for field, spec in ad_entry.fields.items():
 
         msg = "%s:%s" % (ad_name, field)
-        h5_obj = v_item.h5_object.get(field)
+        h5_obj = utils.getHdf5Object(v_item.h5_object, field)
         status = finding.TF_RESULT[h5_obj is not None]
         if h5_obj is None:
             msg += " not"
         msg += " found"
-        v_obj = ValidationItem(v_item, h5_obj)
+        v_obj = v_item if h5_obj is None else ValidationItem(v_item, h5_obj)
         validator.record_finding(v_obj, "NXDL field", status, msg)
 
-        if len(spec.enumerations) > 0:
+        if h5_obj is not None and len(spec.enumerations) > 0:
             found = False
+            value = utils.decode_byte_string(first_value(h5_obj))
             for enum in spec.enumerations:
-                obj = h5_obj[()]
-                if isinstance(obj, (list, tuple, numpy.ndarray)):
-                    obj = obj[0]
-                found = enum == utils.decode_byte_string(obj)
+                found = isinstance(value, str) and enum == value
                 if found:
                     break
             msg = "%s:%s" % (ad_name, field)
-- 
2.43.0


From c6257037544fe2f714d93877bd4adcb359d534de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 14/38] fix: occurrence defaults of application definitions
 leaked into base classes

The schema defaults were shared by all definitions, and the parser changes them
for the items of an application definition.
---
 punx/nxdl_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index fed1769..387e8e6 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -29,6 +29,7 @@ name).
 from __future__ import print_function
 
 import collections
+import copy
 import lxml.etree
 import os
 
@@ -203,7 +204,7 @@ class NXDL__base(object):
             Instance of nxdl_schema.NXDL_schema__element.
         """
         for k, v in sorted(defaults.attributes.items()):
-            self.xml_attributes[k] = v
+            self.xml_attributes[k] = copy.copy(v)  # may be changed by the caller
 
     def parse_attributes(self, xml_node):
         """
-- 
2.43.0


From 16bdb05358eeb243e01531e19b4ec19ac1bb167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 15/38] fix: optional field of an application definition
 reported as error when absent

For example, NXmx and NXtomo declare title, start_time and end_time with
minOccurs="0".
---
 punx/nxdl_manager.py                       | 4 +++-
 punx/validations/application_definition.py | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 387e8e6..f9e6a8c 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -257,7 +257,9 @@ class NXDL__base(object):
 
             if self.nxdl_definition.category in ("applications",):
                 # handle contributed definitions as base classes (for now, minOccurs = 0)
-                obj.xml_attributes["minOccurs"].default_value = 1
+                obj.xml_attributes["minOccurs"].default_value = int(
+                    node.attrib.get("minOccurs", 1)
+                )
 
             self.ensure_unique_name(obj)
             self.fields[obj.name] = obj
diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 70817b3..80a7f62 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -68,6 +68,11 @@ def verify(validator, v_item):
         status = finding.TF_RESULT[h5_obj is not None]
         if h5_obj is None:
             msg += " not"
+            if (
+                ad.category == "applications"
+                and spec.xml_attributes["minOccurs"].default_value == 0
+            ):
+                status = finding.OPTIONAL
         msg += " found"
         v_obj = v_item if h5_obj is None else ValidationItem(v_item, h5_obj)
         validator.record_finding(v_obj, "NXDL field", status, msg)
-- 
2.43.0


From 995ba85d348396ca4c4e8d6c124a7b1cc5bf489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:59 +0000
Subject: [PATCH 16/38] fix: content behind external links cataloged with
 addresses of the other file

---
 punx/validate.py                              | 22 ++++++++++---------
 punx/validations/application_definition.py    |  2 +-
 punx/validations/default_plot.py              |  6 ++---
 .../hdf5_group_items_in_base_class.py         |  5 +++--
 4 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index 7343dcb..8216911 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -269,7 +269,7 @@ class Data_File_Validator(object):
         """
         self._group_address_catalog_(None, self.h5)
 
-    def _group_address_catalog_(self, parent, group):
+    def _group_address_catalog_(self, parent, group, name=None):
         """
         catalog this group's address and all its contents
         """
@@ -288,8 +288,8 @@ class Data_File_Validator(object):
                 v = v.parent
             return False
 
-        def get_subject(parent, o):
-            v = ValidationItem(parent, o)
+        def get_subject(parent, o, name=None):
+            v = ValidationItem(parent, o, name=name)
             self.addresses[v.h5_address] = v
             logger.log(INFORMATIVE, "HDF5 address: " + v.h5_address)
             addClasspath(v)
@@ -299,16 +299,15 @@ class Data_File_Validator(object):
                 addClasspath(av)
             return v
 
-        obj = get_subject(parent, group)
-        parent = self.classpaths[obj.classpath][-1]
+        parent = get_subject(parent, group, name)
         for item in group:
             child = utils.getHdf5Object(group, item)
             if child is None:
                 continue  # link that leads nowhere
             if utils.isHdf5Group(child) and not is_ancestor(parent, child):
-                self._group_address_catalog_(parent, child)
+                self._group_address_catalog_(parent, child, item)
             else:
-                get_subject(parent, child)
+                get_subject(parent, child, item)
 
     def validate_item_name(self, v_item):
         from .validations import item_name
@@ -407,7 +406,7 @@ class ValidationItem(object):
 
     """HDF5 data file object for validation"""
 
-    def __init__(self, parent, obj, attribute_name=None):
+    def __init__(self, parent, obj, attribute_name=None, name=None):
         assert isinstance(parent, (ValidationItem, type(None)))
         self.parent = parent
         self.validations = {}  # validation findings go here
@@ -415,10 +414,13 @@ class ValidationItem(object):
         self.is_attribute = attribute_name is not None
         if hasattr(obj, "name"):
             self.h5_address = obj.name
-            if obj.name == SLASH:
+            if parent is not None and name is not None:
+                # obj.name is not the address in this file if linked externally
+                self.h5_address = parent.h5_address.rstrip(SLASH) + SLASH + name
+            if self.h5_address == SLASH:
                 self.name = SLASH
             else:
-                self.name = obj.name.split(SLASH)[-1]
+                self.name = self.h5_address.split(SLASH)[-1]
             self.classpath = self.determine_NeXus_classpath()
         else:
             self.name = attribute_name
diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 80a7f62..f565673 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -74,7 +74,7 @@ def verify(validator, v_item):
             ):
                 status = finding.OPTIONAL
         msg += " found"
-        v_obj = v_item if h5_obj is None else ValidationItem(v_item, h5_obj)
+        v_obj = v_item if h5_obj is None else ValidationItem(v_item, h5_obj, name=field)
         validator.record_finding(v_obj, "NXDL field", status, msg)
 
         if h5_obj is not None and len(spec.enumerations) > 0:
diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 4721e8f..6475b5f 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -64,9 +64,9 @@ def default_plot_v3(validator):
         "create the HDF5 address"
         if isinstance(v_item.h5_object, str):
             parent = v_item.parent or v_item
-            addr = parent.h5_object.name
+            addr = parent.h5_address
         else:
-            addr = v_item.h5_object.name
+            addr = v_item.h5_address
         if not addr.endswith("/"):
             addr += "/"
         addr += str(utils.decode_byte_string(pointer))
@@ -78,7 +78,7 @@ def default_plot_v3(validator):
         if pointer is None:
             return False
         addr = build_h5_address(v_item, pointer)
-        if utils.getHdf5Object(v_item.h5_object, addr) is None:
+        if utils.getHdf5Object(validator.h5, addr) is None:
             return False
         return v_target == addr
 
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index d686d4a..d674f8d 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -120,9 +120,10 @@ def verify_group_children(validator, v_item, base_class):
     """verify the group's children (groups, fields)"""
     for child_name in v_item.h5_object:
         obj = utils.getHdf5Object(v_item.h5_object, child_name)
-        if obj is None or obj.name not in validator.addresses:
+        address = v_item.h5_address.rstrip("/") + "/" + child_name
+        if obj is None or address not in validator.addresses:
             continue  # not in the catalog: link to nowhere, or below a circular link
-        v_sub_item = validator.addresses[obj.name]
+        v_sub_item = validator.addresses[address]
         # TODO: need an algorithm to know if v_item is defined in base class
 
         if utils.isNeXusDataset(obj):
-- 
2.43.0


From 56aa1072853bb4c9b4fff185922ebdc7846f5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:06 +0000
Subject: [PATCH 17/38] fix: summary of selected statuses failed with KeyError

---
 punx/validate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index 8216911..29dfb63 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -167,7 +167,8 @@ class Data_File_Validator(object):
         for status in report_statuses:
             summary[status] = 0
         for f in self.validations:
-            summary[f.status] += 1
+            if f.status in summary:
+                summary[f.status] += 1
         return summary
 
     def print_report(self, statuses=None):
-- 
2.43.0


From c001e3c0d469aa9a500af24c2cff7a3c0e71637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:48 +0000
Subject: [PATCH 18/38] fix: tree fails on NX_class values that are not text
 and on circular links at the top

isNeXusFile and the tree report ended with an exception if the attribute is
numeric or empty, or if a top level link is circular.
---
 punx/h5tree.py |  8 ++------
 punx/utils.py  | 17 +++++++++++------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index e0c0b12..d15f8ac 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -101,13 +101,9 @@ class Hdf5TreeView(object):
             contents will not be used.
         """
         s = []
-        nxclass = obj.attrs.get("NX_class", "")
+        nxclass = utils.getNXclass(obj) or ""
         if len(nxclass) > 0:
-            if isinstance(
-                nxclass, numpy.ndarray
-            ):  # attribute reported as DATATYPE SIMPLE
-                nxclass = nxclass[0]  # convert as if DATATYPE SCALAR
-            nxclass = ":" + utils.decode_byte_string(nxclass)
+            nxclass = ":" + nxclass
         s += [indentation + name + nxclass]
         extra_attrs = {}
         if isinstance(md, h5py.ExternalLink):
diff --git a/punx/utils.py b/punx/utils.py
index b5fa739..cb7a93f 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -137,19 +137,24 @@ def isNeXusFile(filename):
                 try:
                     if isNeXusGroup(root[item], "NXentry"):
                         return True
-                except KeyError:
-                    pass
+                except (KeyError, RuntimeError):
+                    pass  # link to nowhere, or circular
     return False
 
 
+def getNXclass(obj):
+    """Text of the ``NX_class`` attribute (first, if an array) or `None`."""
+    nxclass = decode_byte_string(obj.attrs.get("NX_class", None))
+    while isinstance(nxclass, list):
+        nxclass = nxclass[0]
+    return nxclass if isinstance(nxclass, str) else None
+
+
 def isNeXusGroup(obj, NXtype):
     """Is `obj` a NeXus group?"""
     nxclass = None
     if isHdf5Group(obj):
-        nxclass = obj.attrs.get("NX_class", None)
-        if isinstance(nxclass, numpy.ndarray):
-            nxclass = nxclass[0]
-        nxclass = decode_byte_string(nxclass)
+        nxclass = getNXclass(obj)
     return nxclass == str(NXtype)
 
 
-- 
2.43.0


From 4bee459ab1d883246291ed41ecf072bf83d6188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:24 +0000
Subject: [PATCH 19/38] fix: tree fails on links to nowhere in existing
 external files and on cyclic links

An external link is missing if the object it names can not be opened, not if
the name of its file is not found from the current directory.  A group that
contains itself is not entered again.
---
 punx/h5tree.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index d15f8ac..fbcc8ec 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -87,7 +87,7 @@ class Hdf5TreeView(object):
             tree_string_list = self._renderGroup(f, txt, indentation="")
         return tree_string_list
 
-    def _renderGroup(self, obj, name, indentation="  ", md=None):
+    def _renderGroup(self, obj, name, indentation="  ", md=None, parents=()):
         """return a [formatted_string] with the contents of the group
 
         Parameters
@@ -99,6 +99,8 @@ class Hdf5TreeView(object):
             If group was an ExternalLink, then keys ``filename`` and ``path``
             describe the external link point.  If not ExternalLink, the dictionary
             contents will not be used.
+        parents : tuple
+            the groups this group is in
         """
         s = []
         nxclass = utils.getNXclass(obj) or ""
@@ -111,28 +113,21 @@ class Hdf5TreeView(object):
             extra_attrs = dict(file=md.filename, path=md.path)
         s += self._renderAttributes(obj, indentation, extra_attrs)
 
+        if obj in parents:
+            return s  # content of this group is shown already (cyclic link)
+
         # show datasets and links next
         groups = []
         for itemname in sorted(obj):
             link_info = obj.get(itemname, getlink=True)
-            # prevent fails of obj.get(itemname, getclass=True)
-            # for external links if file is not available
-            if (
-                isinstance(link_info, h5py.ExternalLink)
-                and not os.path.exists(link_info.filename)
-            ):
-                classref = None
-                logger.debug(
-                    "FileNotFound: external file=%s  external HDF5 addr=%s",
-                    link_info.filename, link_info.path
-                )
-            elif isinstance(link_info, h5py.SoftLink):
-                classref = None
+            if isinstance(link_info, h5py.SoftLink):
+                value = None
                 logger.debug("SoftLink: HDF5 addr=%s", link_info.path)
             else:
-                classref = obj.get(itemname, getclass=True)
+                # None: external file or its content is not available
+                value = utils.getHdf5Object(obj, itemname)
 
-            if classref is None:
+            if value is None:
                 if isinstance(link_info, h5py.SoftLink):
                     s += ["%s  %s: --> %s" % (indentation, itemname, link_info.path)]
                 else:
@@ -143,7 +138,6 @@ class Hdf5TreeView(object):
                             if v is not None:
                                 s += [self._renderSingleAttribute(indentation + "  ", nm, v)]
             else:
-                value = obj.get(itemname)
                 if utils.isNeXusLink(value):
                     s += self._renderLinkedObject(value, itemname, indentation + "  ")
                 elif utils.isHdf5Group(value) or utils.isHdf5FileObject(value):
@@ -153,20 +147,22 @@ class Hdf5TreeView(object):
                     if self.show_attributes and utils.isHdf5ExternalLink(
                         obj, link_info
                     ):  # TODO: is obj the "parent"
-                        # When "classref" is defined, then external data is available
+                        # When "value" is defined, then external data is available
                         s += [self._renderSingleAttribute(indentation + "  ", "file", link_info.filename)]
                         s += [self._renderSingleAttribute(indentation + "  ", "path", link_info.path)]
                 else:
                     msg = (
                         "unidentified %s: %s, %s",
                         itemname,
-                        repr(classref),
+                        repr(value),
                         repr(link_info),
                     )
                     raise Exception(msg)
 
         for value, itemname, md in groups:  # show things that look like groups
-            g = self._renderGroup(value, itemname, indentation + "  ", md)
+            g = self._renderGroup(
+                value, itemname, indentation + "  ", md, parents + (obj,)
+            )
             s += g
 
         return s
-- 
2.43.0


From e8720394fd21cfdd82890df58f44bfe8b4ba5b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:08 +0000
Subject: [PATCH 20/38] fix: tree fails on or loses values of some kinds of
 datasets

Null dataspace, text arrays of rank 2 and named datatypes ended the report
with an exception; the value of a numeric scalar was not shown; text of
variable length was shown as Python bytes; a dataset with a target attribute
that names nothing was shown as link without content.
---
 punx/h5tree.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index fbcc8ec..b7035f0 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -22,7 +22,6 @@ Describe the tree structure of any HDF5 file
 import logging
 import os
 import h5py
-import numpy
 
 from . import utils
 
@@ -150,6 +149,9 @@ class Hdf5TreeView(object):
                         # When "value" is defined, then external data is available
                         s += [self._renderSingleAttribute(indentation + "  ", "file", link_info.filename)]
                         s += [self._renderSingleAttribute(indentation + "  ", "path", link_info.path)]
+                elif isinstance(value, h5py.Datatype):
+                    s += ["%s  %s: named datatype" % (indentation, itemname)]
+                    s += self._renderAttributes(value, indentation + "  ")
                 else:
                     msg = (
                         "unidentified %s: %s, %s",
@@ -198,16 +200,11 @@ class Hdf5TreeView(object):
         """return a [formatted_string] with the contents and structure of a dataset"""
         shape = dset.shape
         # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
-        if self.isNeXus:
-            if "target" in dset.attrs:
-                target_addr = utils.decode_byte_string(dset.attrs["target"])
-                if target_addr != dset.name:
-                    return self._renderLinkedObject(dset, name, indentation)
         txType = self._renderDsType(dset)
         txShape = self._renderDsShape(dset)
         s = []
         if dset.dtype.kind == "S":
-            if isinstance(dset[()], numpy.ndarray):
+            if shape is not None and len(shape) == 1:
                 ss = ['"' + utils.decode_byte_string(ss) + '"' for ss in dset[()]]
                 if len(ss) > 1:
                     value = " = [%s]" % ", ".join(ss)
@@ -219,11 +216,14 @@ class Hdf5TreeView(object):
             s += self._renderAttributes(dset, indentation)
             # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
         elif dset.dtype.kind == "O":
-            value = " = %s" % str(dset[()])
+            value = dset[()]
+            if h5py.check_string_dtype(dset.dtype) is not None and dset.size:
+                value = utils.decode_byte_string(value)
+            value = " = %s" % str(value)
             s += ["%s%s:%s%s" % (indentation, name, txType, value)]
             s += self._renderAttributes(dset, indentation)
-        elif shape == (1,):
-            value = " = %s" % str(dset[0])
+        elif shape in (None, (), (1,)):
+            value = " = %s" % str(dset[0] if shape else dset[()])
             s += ["%s%s:%s%s%s" % (indentation, name, txType, txShape, value)]
             s += self._renderAttributes(dset, indentation)
         else:
@@ -261,7 +261,7 @@ class Hdf5TreeView(object):
         t = str(obj.dtype)
         # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
         if obj.dtype.kind == "S":  # fixed-length string
-            if len(obj.shape):
+            if obj.shape:
                 t = "char[%s]" % ",".join([str(o.dtype.itemsize) for o in obj])
             else:
                 t = "CHAR"
@@ -273,11 +273,11 @@ class Hdf5TreeView(object):
 
     def _renderDsShape(self, obj):
         """return the shape of the HDF5 dataset"""
-        s = obj.shape
+        s = obj.shape or ()
         l = []
         for dim in s:
             l.append(str(dim))
-        if l == ["1"]:
+        if l in ([], ["1"]):
             result = ""
         else:
             result = "[%s]" % ",".join(l)
-- 
2.43.0


From 1d1327588921949a96a341cc835ac9ba274cf3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:19 +0000
Subject: [PATCH 21/38] fix: processing instruction in the symbols table
 stopped reading of the NXDL file

---
 punx/nxdl_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index f9e6a8c..fc250f1 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -686,8 +686,8 @@ class NXDL__symbols(NXDL__base):
     def parse_nxdl_xml(self, symbols_node):
         """parse the XML content"""
         for node in symbols_node:
-            if isinstance(node, lxml.etree._Comment):
-                continue
+            if not isinstance(node.tag, str):
+                continue  # comment or processing instruction
 
             element_type = node.tag.split("}")[-1]
             if element_type == "symbol":
-- 
2.43.0


From bdc530143b02b120b48e918474aa1f4b5bcaac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:35 +0000
Subject: [PATCH 22/38] fix: NXDL files of a file set were validated by the XML
 Schema of the selected file set

---
 punx/nxdl_manager.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index fc250f1..977e563 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -159,15 +159,20 @@ def get_NXDL_file_list(nxdl_dir):
     return nxdl_file_list
 
 
-def validate_xml_tree(xml_tree):
+def validate_xml_tree(xml_tree, file_set=None):
     """
     Validate an NXDL XML file against its NeXus NXDL XML Schema file.
 
-    :param str xml_file_name: name of XML file
+    :param obj xml_tree: content of XML file
+    :param obj file_set: instance of NXDL_File_Set with the XML Schema
+        (default: the default file set)
     """
     from . import schema_manager
 
-    schema = schema_manager.get_default_schema_manager().lxml_schema
+    if file_set is None:
+        schema = schema_manager.get_default_schema_manager().lxml_schema
+    else:
+        schema = file_set.schema_manager.lxml_schema
     try:
         result = schema.assertValid(xml_tree)
     except lxml.etree.DocumentInvalid as exc:
@@ -443,7 +448,7 @@ class NXDL__definition(NXDL__base):  # lgtm [py/missing-call-to-init]
         lxml_tree = lxml.etree.parse(self.file_name)
 
         try:
-            validate_xml_tree(lxml_tree)
+            validate_xml_tree(lxml_tree, self.nxdl_manager.nxdl_file_set)
         except InvalidNxdlFile as exc:
             msg = "NXDL file is not valid: " + self.file_name
             msg += "\n" + str(exc)
-- 
2.43.0


From dffcc8b1ed361331817dd20c47659b0a91816f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:35 +0000
Subject: [PATCH 23/38] fix: the second schema read in a process lacked the
 content of groups and changed the first

---
 punx/schema_manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 58dc20f..bf27bcb 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -349,8 +349,6 @@ class Schema_Root(_Mixin):
     :param obj schema_root: optional, instance of lxml.etree._Element
     """
 
-    attrs = {}
-    children = {}
     patterns = None
     type = None
     units = None
@@ -371,6 +369,9 @@ class Schema_Root(_Mixin):
             schema_root=schema_root,
         )
 
+        self.attrs = {}
+        self.children = {}
+
         self.schema_manager = schema_manager
         element_type = element_node.attrib.get("type")
         if element_type is None:
@@ -520,6 +521,8 @@ class Schema_Element(_Mixin):
             if ok_to_parse:
                 type_obj = Schema_Type(ref, schema_root=self.lxml_root)
                 type_obj.copy_to(self)
+                if xml_obj.attrib["name"] == "group":
+                    _GroupParsing().started = False  # the recursion ends here
 
 
 class Schema_Type(_Mixin):  # lgtm [py/missing-call-to-init]
-- 
2.43.0


From 9b42cfee2488ebd642889fdd9dd72e03bf8823a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:56 +0000
Subject: [PATCH 24/38] fix: command line did not recognize the exceptions of
 missing and unreadable files

punx.__init__ was imported as another module, with its own exception classes.
---
 punx/cache_manager.py | 2 +-
 punx/main.py          | 4 ++--
 punx/nxdl_manager.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 1446758..72423b9 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -73,7 +73,7 @@ from PyQt5 import QtCore
 from requests.packages.urllib3 import disable_warnings
 from requests.packages.urllib3.exceptions import InsecureRequestWarning
 
-from .__init__ import __settings_organization__, __settings_package__
+from . import __settings_organization__, __settings_package__
 from . import singletons
 from . import utils
 
diff --git a/punx/main.py b/punx/main.py
index a6c069a..d73d62c 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -72,8 +72,8 @@ logging.basicConfig(
 )
 
 
-from .__init__ import __version__, __package_name__, __url__
-from .__init__ import FileNotFound, HDF5_Open_Error, SchemaNotFound
+from . import __version__, __package_name__, __url__
+from . import FileNotFound, HDF5_Open_Error, SchemaNotFound
 from . import finding
 from . import utils
 
diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 977e563..b25b721 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -33,7 +33,7 @@ import copy
 import lxml.etree
 import os
 
-from .__init__ import FileNotFound, InvalidNxdlFile
+from . import FileNotFound, InvalidNxdlFile
 from . import nxdl_schema
 from . import cache_manager
 from . import utils
-- 
2.43.0


From 0102f83914a3ed4124f58739b79f651e9122390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:56 +0000
Subject: [PATCH 25/38] fix: punx tree showed nothing for a missing file and a
 traceback for a file that is not HDF5

---
 punx/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/punx/main.py b/punx/main.py
index d73d62c..dbd0ca1 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -159,6 +159,9 @@ def func_demo(args):
 
 def func_tree(args):
     """print the tree structure of a NeXus HDF5 data file of NXDL XML file"""
+    if not os.path.exists(args.infile):
+        exit_message("File not found: " + args.infile)
+
     if args.infile.endswith(".nxdl.xml"):
         from . import nxdltree
 
@@ -178,6 +181,8 @@ def func_tree(args):
             mc = h5tree.Hdf5TreeView(os.path.abspath(args.infile))
         except FileNotFound:
             exit_message("File not found: " + args.infile)
+        except OSError:
+            exit_message("Could not open as HDF5: " + args.infile)
         mc.array_items_shown = args.max_array_items
         try:
             report = mc.report(args.show_attributes)
-- 
2.43.0


From 1d10d756320ddb4aea1ad9870be20aa1d55f6e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:56 +0000
Subject: [PATCH 26/38] fix: punx validate of a NXDL file stopped with
 AttributeError

---
 punx/main.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/punx/main.py b/punx/main.py
index dbd0ca1..ada55be 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -73,7 +73,7 @@ logging.basicConfig(
 
 
 from . import __version__, __package_name__, __url__
-from . import FileNotFound, HDF5_Open_Error, SchemaNotFound
+from . import FileNotFound, HDF5_Open_Error, InvalidNxdlFile, SchemaNotFound
 from . import finding
 from . import utils
 
@@ -195,16 +195,12 @@ def func_validate(args):
     """
     validate the content of a NeXus HDF5 data file of NXDL XML file
     """
+    import lxml.etree
+    from . import nxdl_manager
     from . import validate
 
     cm = cache_manager.CacheManager()
 
-    if args.infile.endswith(".nxdl.xml"):
-        result = validate.validate_xml(args.infile)
-        if result is None:
-            print(args.infile, " validates")
-        return
-
     file_sets = list(cm.all_file_sets.keys())
     if args.file_set_name not in file_sets:
         exit_message(
@@ -212,6 +208,19 @@ def func_validate(args):
             f"  Either install it or use one of these: {', '.join(file_sets)}"
         )
 
+    if args.infile.endswith(".nxdl.xml"):
+        if not os.path.exists(args.infile):
+            exit_message("File not found: " + args.infile)
+        try:
+            nxdl_manager.validate_xml_tree(
+                lxml.etree.parse(args.infile),
+                cm.NXDL_file_sets[args.file_set_name]
+            )
+        except (InvalidNxdlFile, lxml.etree.XMLSyntaxError, OSError) as _exc:
+            exit_message(f"{args.infile} is not valid: {_exc}")
+        print(args.infile, " validates")
+        return
+
     validator = validate.Data_File_Validator(args.file_set_name)
 
     # determine which findings are to be reported
-- 
2.43.0


From baf5c63e4b8f9457ea17a1169bebcb953972cb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:56 +0000
Subject: [PATCH 27/38] fix: punx demo failed unless the main branch of the
 definitions was installed

---
 punx/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/main.py b/punx/main.py
index ada55be..6ac6550 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -134,7 +134,7 @@ def func_demo(args):
     print("")
     print("console> punx validate " + args.infile)
     args.report = ",".join(sorted(finding.VALID_STATUS_DICT.keys()))
-    args.file_set_name = cache_manager.GITHUB_NXDL_BRANCH
+    args.file_set_name = cache_manager.CacheManager().default_file_set.ref
     func_validate(args)
     del args.report
 
-- 
2.43.0


From 79ddda7646bd1efaea1f1c2d347903dc91ad6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:03 +0000
Subject: [PATCH 28/38] fix: file set of the user cache shown as one of the
 source cache

---
 punx/cache_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 72423b9..4b4c8e2 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -391,6 +391,7 @@ class Base_Cache(object):
 
     """
 
+    name = None
     qsettings = None
     is_temporary_directory = False
 
@@ -423,6 +424,7 @@ class Base_Cache(object):
                 if os.path.exists(info_file):
                     fs[item] = NXDL_File_Set()
                     fs[item].read_info_file(info_file)
+                    fs[item].cache = self.name
         return fs
 
     def cleanup(self):
@@ -436,6 +438,8 @@ class SourceCache(Base_Cache):
 
     """manage the source directory cache of NXDL files"""
 
+    name = "source"
+
     def __init__(self):
         path = pathlib.Path(__file__).parent.absolute()
         ini_file = path / SOURCE_CACHE_SUBDIR / SOURCE_CACHE_SETTINGS_FILENAME
@@ -447,6 +451,8 @@ class UserCache(Base_Cache):
 
     """manage the user directory cache of NXDL files"""
 
+    name = "user"
+
     def __init__(self):
         self.qsettings = QtCore.QSettings(
             QtCore.QSettings.IniFormat,
-- 
2.43.0


From 741d724754be0d64b02f237a0beb796108093d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:04 +0000
Subject: [PATCH 29/38] fix: one damaged or incomplete info file of a file set
 stopped punx

---
 punx/cache_manager.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 4b4c8e2..324966c 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -422,9 +422,17 @@ class Base_Cache(object):
             if os.path.isdir(os.path.join(cache_path, item)):
                 info_file = os.path.join(cache_path, item, INFO_FILE_NAME)
                 if os.path.exists(info_file):
-                    fs[item] = NXDL_File_Set()
-                    fs[item].read_info_file(info_file)
-                    fs[item].cache = self.name
+                    file_set = NXDL_File_Set()
+                    try:
+                        file_set.read_info_file(info_file)
+                    except (OSError, ValueError) as exc:
+                        logger.warning(
+                            "File set %s ignored, cannot read its info file: %s",
+                            item, exc
+                        )
+                        continue
+                    file_set.cache = self.name
+                    fs[item] = file_set
         return fs
 
     def cleanup(self):
@@ -533,5 +541,8 @@ class NXDL_File_Set(object):
 
         # read the NXDL file set's info file for GitHub information
         obj = read_json_file(file_name)
+        if not isinstance(obj, dict):
+            raise ValueError(f"not an info file: {file_name}")
         for k in self.json_file_keys:
-            self.__setattr__(k, obj.get(k))
+            # missing information is shown (and sorted) as empty text
+            self.__setattr__(k, str(obj.get(k) or ""))
-- 
2.43.0


From d83b5e025dce0430e0c397a1c7d9733e76d7c700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:04 +0000
Subject: [PATCH 30/38] fix: default file set not available if its directory is
 not named as its ref

---
 punx/cache_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 324966c..b2c94e6 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -432,6 +432,7 @@ class Base_Cache(object):
                         )
                         continue
                     file_set.cache = self.name
+                    file_set.ref = item  # known by the name of its directory
                     fs[item] = file_set
         return fs
 
-- 
2.43.0


From 4faaa65cc78c7eba9734ad287d37d807c7761b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:13 +0000
Subject: [PATCH 31/38] fix: punx install reported the default file set from
 before the installation

---
 punx/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/punx/main.py b/punx/main.py
index 6ac6550..c35c460 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -273,6 +273,7 @@ def func_install(args):
         )
 
     print(cm.table_of_caches())
+    cm.select_NXDL_file_set()  # the latest, with the file sets just installed
     print(f"default file set: {cm.default_file_set.ref}")
 
 
-- 
2.43.0


From b2c12d961db2f31f440ae904b6f7c83d72d698cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:13 +0000
Subject: [PATCH 32/38] fix: interrupted or failed installation left an
 incomplete file set in the user cache

---
 punx/cache_manager.py | 88 +++++++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 36 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index b2c94e6..5ed5e1f 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -68,6 +68,7 @@ import pathlib
 import pyRestTable
 import requests
 import shutil
+import tempfile
 
 from PyQt5 import QtCore
 from requests.packages.urllib3 import disable_warnings
@@ -198,44 +199,59 @@ def download_file_set(file_set_name, cache_path, replace=False):
     NXDL_categories = "base_classes applications contributed_definitions".split()
     NXDL_file_endings_list = ".xsd .xml .xsl".split()
 
-    download_path = cache_path / zip_content.filelist[0].filename.split("/")[0]
+    top_name = zip_content.filelist[0].filename.split("/")[0]
     allowed_parents = NXDL_categories  # directories
-    allowed_parents.append(download_path.name)
-
-    item_count = 0
-    dt = (1980, 1, 1, 1, 1, 1)  # start with pre-NeXus date
-    for item in zip_content.namelist():
-        if is_extractable(item, NXDL_file_endings_list, allowed_parents):
-            zip_content.extract(item, cache_path)
-            dt = max(zip_content.getinfo(item).date_time, dt)
-            item_count += 1
-            print(f"{item_count} Extracted: {item}")
-
-    if item_count < 2:
-        raise ValueError("no NXDL content downloaded")
-
-    ymd_hms = datetime.datetime(
-        *dt[:3], hour=dt[3], minute=dt[4], second=dt[5]
-    )
+    allowed_parents.append(top_name)
+
+    # A file set is made ready in a staging directory,
+    # what is left of an interrupted installation is never a file set.
+    staging_path = pathlib.Path(tempfile.mkdtemp(prefix=".", dir=cache_path))
+    download_path = staging_path / top_name
+    try:
+        item_count = 0
+        dt = (1980, 1, 1, 1, 1, 1)  # start with pre-NeXus date
+        for item in zip_content.namelist():
+            if is_extractable(item, NXDL_file_endings_list, allowed_parents):
+                zip_content.extract(item, staging_path)
+                dt = max(zip_content.getinfo(item).date_time, dt)
+                item_count += 1
+                print(f"{item_count} Extracted: {item}")
+
+        if item_count < 2:
+            raise ValueError("no NXDL content downloaded")
+
+        ymd_hms = datetime.datetime(
+            *dt[:3], hour=dt[3], minute=dt[4], second=dt[5]
+        )
 
-    info = dict(
-        ref=file_set_name,
-        sha=zip_content.comment.decode("utf8"),
-        zip_url=url,
-        last_modified=ymd_hms.isoformat(sep=" "),
-    )
-    info["# description"] = "NXDL files downloaded from GitHub repository"
-    info["# written"] = str(datetime.datetime.now())
-    # TODO: move this code into the NXDL_File_Set class
-    infofile = download_path / INFO_FILE_NAME
-    write_json_file(infofile, info)
-    print(f"Created: {infofile}")
-
-    # last, rename the ``download_path`` directory to ``file_set_name``
-    if NXDL_refs_dir_name.exists():
-        shutil.rmtree(NXDL_refs_dir_name, ignore_errors=True)
-    shutil.move(download_path, NXDL_refs_dir_name)
-    print(f"Installed in directory: {NXDL_refs_dir_name}")
+        info = dict(
+            ref=file_set_name,
+            sha=zip_content.comment.decode("utf8"),
+            zip_url=url,
+            last_modified=ymd_hms.isoformat(sep=" "),
+        )
+        info["# description"] = "NXDL files downloaded from GitHub repository"
+        info["# written"] = str(datetime.datetime.now())
+        # TODO: move this code into the NXDL_File_Set class
+        infofile = download_path / INFO_FILE_NAME
+        write_json_file(infofile, info)
+        print(f"Created: {infofile}")
+
+        # last, rename the ``download_path`` directory to ``file_set_name``
+        if NXDL_refs_dir_name.exists():
+            replaced_path = staging_path / "replaced"
+            os.rename(NXDL_refs_dir_name, replaced_path)
+            try:
+                os.rename(download_path, NXDL_refs_dir_name)
+            except BaseException:
+                if not NXDL_refs_dir_name.exists():
+                    os.rename(replaced_path, NXDL_refs_dir_name)
+                raise
+        else:
+            os.rename(download_path, NXDL_refs_dir_name)
+        print(f"Installed in directory: {NXDL_refs_dir_name}")
+    finally:
+        shutil.rmtree(staging_path, ignore_errors=True)
 
 
 def table_of_caches():
-- 
2.43.0


From 58b6764eb3ea26b3ed7e1fbd4a82ddd663f643e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:06 +0000
Subject: [PATCH 33/38] fix: comments and annotations within the types of the
 XML Schema stopped its reading

---
 punx/nxdl_schema.py    |  4 +++-
 punx/schema_manager.py | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/punx/nxdl_schema.py b/punx/nxdl_schema.py
index 55112d6..a7c582e 100644
--- a/punx/nxdl_schema.py
+++ b/punx/nxdl_schema.py
@@ -272,7 +272,9 @@ class NXDL_schema__complexType(NXDL_schema__Mixin):
     def _parse_complexContent(self, xml_node, catalog):
         """parse a xs:complexContent node"""
         assert xml_node.tag.endswith("}complexContent")
-        self._parse_extension(xml_node[0], catalog)
+        ns = get_xml_namespace_dictionary()
+        for node in xml_node.xpath("xs:extension", namespaces=ns):
+            self._parse_extension(node, catalog)
 
     def _parse_element(self, xml_node, catalog):
         """parse a xs:element node"""
diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index bf27bcb..9ab27c5 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -310,7 +310,7 @@ class _Mixin(object):
 
     def parse_complexContent(self, node):
         """ """
-        for subnode in node:
+        for subnode in node.iterchildren("*"):
             if subnode.tag.endswith("}extension"):
                 ref = subnode.attrib.get("base")
                 if ref not in ("nx:basicComponent"):
@@ -319,7 +319,7 @@ class _Mixin(object):
                 obj.copy_to(self)
 
                 # parse children of extension node
-                for obj_node in subnode:
+                for obj_node in subnode.iterchildren("*"):
                     if obj_node.tag.endswith("}annotation"):
                         pass
                     elif obj_node.tag.endswith("}attribute"):
@@ -329,6 +329,8 @@ class _Mixin(object):
                     else:
                         raise_error(obj_node, "unexpected base=", obj_node.tag)
 
+            elif subnode.tag.endswith("}annotation"):
+                pass
             else:
                 raise_error(subnode, "unexpected tag=", subnode.tag)
 
@@ -381,7 +383,7 @@ class Schema_Root(_Mixin):
         ref = strip_ns(element_type)
         type_node = self.get_named_node("complexType", "name", ref)
 
-        for node in type_node:
+        for node in type_node.iterchildren("*"):
             if node.tag.endswith("}attribute"):
                 obj = Schema_Attribute(node, schema_root=self.lxml_root)
                 self.attrs[obj.name] = obj
@@ -404,13 +406,15 @@ class Schema_Root(_Mixin):
         """
         parse the sequence used in the root element
         """
-        for node in seq_node:
+        for node in seq_node.iterchildren("*"):
             if node.tag.endswith("}element"):
                 obj = Schema_Element(node, schema_root=self.lxml_root)
                 self.children[obj.name] = obj
             elif node.tag.endswith("}group"):
                 obj = Schema_Type(node.attrib.get("ref"), schema_root=self.lxml_root)
                 obj.copy_to(self)
+            elif node.tag.endswith("}annotation"):
+                pass
             else:
                 msg = "unhandled tag in ``definitionType``: "
                 raise_error(node, msg, node.tag)
@@ -495,7 +499,7 @@ class Schema_Element(_Mixin):
         # read & analyze theNXDL structural *type* referenced by *ref*
         ref = self.type = xml_obj.attrib.get("type")
         if ref is None:
-            for node in xml_obj:
+            for node in xml_obj.iterchildren("*"):
                 if node.tag.endswith("}complexType"):
                     a = Schema_Attribute(
                         node.find("xs:attribute", self.ns), schema_root=self.lxml_root
@@ -570,13 +574,15 @@ class Schema_Type(_Mixin):  # lgtm [py/missing-call-to-init]
 
     def parse_sequence(self, node):
         """ """
-        for subnode in node:
+        for subnode in node.iterchildren("*"):
             if subnode.tag.endswith("}element"):
                 obj = Schema_Element(subnode, schema_root=self.lxml_root)
                 self.children[obj.name] = obj
             elif subnode.tag.endswith("}group"):
                 obj = Schema_Element(subnode, schema_root=self.lxml_root)
                 self.children[obj.name] = obj
+            elif subnode.tag.endswith("}annotation"):
+                pass
             elif subnode.tag.endswith("}any"):
                 # do not process this one, only used for documentation
                 pass
-- 
2.43.0


From 27ea46bbb3e5ba1b965e7a80e81c86b71cb875fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:06 +0000
Subject: [PATCH 34/38] fix: schema elements of a type without name lacked
 attributes and content

---
 punx/schema_manager.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 9ab27c5..cad6b6f 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -501,10 +501,12 @@ class Schema_Element(_Mixin):
         if ref is None:
             for node in xml_obj.iterchildren("*"):
                 if node.tag.endswith("}complexType"):
-                    a = Schema_Attribute(
-                        node.find("xs:attribute", self.ns), schema_root=self.lxml_root
-                    )
-                    self.attrs[a.name] = a
+                    for subnode in node.findall("xs:attribute", self.ns):
+                        a = Schema_Attribute(subnode, schema_root=self.lxml_root)
+                        self.attrs[a.name] = a
+                    for subnode in node.findall("xs:sequence/xs:element", self.ns):
+                        e = Schema_Element(subnode, schema_root=self.lxml_root)
+                        self.children[e.name] = e
                 elif node.tag.endswith("}annotation"):
                     pass
                 else:
-- 
2.43.0


From cfe2f42d12729735edaa40a0eaef239d243a0ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:06 +0000
Subject: [PATCH 35/38] fix: the members of union types could be read only
 once, units were missing

---
 punx/schema_manager.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index cad6b6f..49d10fe 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -195,7 +195,8 @@ class SchemaManager(object):
                     db[obj.name] = obj
 
         # re-arrange
-        units = list(db["anyUnitsAttr"].values or [])
+        any_units = db["anyUnitsAttr"]
+        units = list(any_units.values or any_units.union or [])
         del db["anyUnitsAttr"]
         del db["primitiveType"]
 
@@ -235,7 +236,7 @@ class Schema_nxdlType(object):
             elif node.tag.endswith("}annotation"):
                 pass
             elif node.tag.endswith("}list"):
-                self.values = map(strip_ns, [node.attrib["itemType"]])
+                self.values = [strip_ns(node.attrib["itemType"])]
             elif node.tag.endswith("}restriction"):
                 self.restriction = strip_ns(node.attrib["base"])
                 self.values = []
@@ -245,7 +246,7 @@ class Schema_nxdlType(object):
                     elif subnode.tag.endswith("}enumeration"):
                         self.values.append(subnode.attrib["value"])
             elif node.tag.endswith("}union"):
-                self.union = map(strip_ns, node.attrib["memberTypes"].split())
+                self.union = [strip_ns(v) for v in node.attrib["memberTypes"].split()]
             else:
                 raise_error(node, "unhandled tag=", node.tag)
 
-- 
2.43.0


From 7f8092836a8c6fb5044c7f725a424ea4164cf23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:07 +0000
Subject: [PATCH 36/38] fix: a boolean attribute without default stopped the
 reading of the XML Schema

---
 punx/schema_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 49d10fe..1dd40c4 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -446,7 +446,7 @@ class Schema_Attribute(_Mixin):
         self.type = xml_obj.attrib.get("type", "str")
         defalt = xml_obj.attrib.get("default")
         if self.type in ("nx:NX_BOOLEAN",):
-            self.default_value = defalt.lower() in ("true", "y", 1)
+            self.default_value = (defalt or "").lower() in ("true", "y", "1")
         else:
             self.default_value = defalt
 
-- 
2.43.0


From b0a1750b6b9a6d26db08d73eaf3e584f509de1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:07 +0000
Subject: [PATCH 37/38] fix: the length limit and all patterns of schema types
 are kept

---
 punx/nxdl_schema.py    | 7 ++++---
 punx/schema_manager.py | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/punx/nxdl_schema.py b/punx/nxdl_schema.py
index a7c582e..282de01 100644
--- a/punx/nxdl_schema.py
+++ b/punx/nxdl_schema.py
@@ -188,8 +188,8 @@ class NXDL_schema__attribute(NXDL_schema__Mixin):
         nodelist = xml_node.xpath(
             "xs:simpleType/xs:restriction/xs:pattern", namespaces=ns
         )
-        if len(nodelist) == 1:
-            self.patterns.append(nodelist[0].attrib["value"])
+        for node in nodelist:
+            self.patterns.append(node.attrib["value"])
 
 
 class NXDL_schema__attributeGroup(NXDL_schema__Mixin):
@@ -564,7 +564,8 @@ class NXDL_item_catalog(object):
             if hasattr(v, "base"):
                 if v.base in xref:
                     known_base = xref[v.base]
-                    v.maxLength = known_base.maxLength
+                    if v.maxLength is None:
+                        v.maxLength = known_base.maxLength
                     v.patterns += known_base.patterns
                     v.base = known_base.base
 
diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 1dd40c4..999d157 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -158,7 +158,8 @@ class SchemaManager(object):
             if v.base != "token" and v.base in db:
                 base = db[v.base]
                 v.base = base.base
-                v.maxLength = base.maxLength
+                if v.maxLength == -1:
+                    v.maxLength = base.maxLength
                 v.re_list += base.re_list
 
         return db
-- 
2.43.0


From e7bb8119718cfdac177fcd6b83e29420c0562f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:07 +0000
Subject: [PATCH 38/38] fix: elements on one line of the XML Schema were taken
 for one another

---
 punx/nxdl_schema.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/punx/nxdl_schema.py b/punx/nxdl_schema.py
index 282de01..c5260d2 100644
--- a/punx/nxdl_schema.py
+++ b/punx/nxdl_schema.py
@@ -73,7 +73,9 @@ def get_named_parent_node(xml_node):
 def get_reference_keys(xml_node):
     """reference an xml_node in the catalog: ``catalog[section][line]``"""
     section = xml_node.tag.split("}")[-1]
-    line = "Line %d" % xml_node.sourceline
+    # several nodes may share one line of the file: the path tells them apart
+    path = xml_node.getroottree().getpath(xml_node)
+    line = "Line %d %s" % (xml_node.sourceline, path)
     return section, line
 
 
@@ -461,7 +463,8 @@ class NXDL_item_catalog(object):
 
         nodes = root.xpath("xs:element", namespaces=self.ns)
         assert len(nodes) == 1
-        self.definition_element = self.db["element"]["Line %d" % nodes[0].sourceline]
+        section, line = get_reference_keys(nodes[0])
+        self.definition_element = self.db[section][line]
         reference_type_name = nodes[0].attrib["type"].split(":")[-1]
         self.definition_element.children += self.db["schema"][
             reference_type_name
-- 
2.43.0

