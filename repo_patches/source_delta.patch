From 28fbcab855d771dc0ff284444209e8498609d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:34 +0000
Subject: [PATCH 001/129] fix: reverse the mask with the values when importing
 a field with descending axes

---
 IMTreatment/core/scalarfield.py | 2 ++
 IMTreatment/core/vectorfield.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 541c3f5..e81a011 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -503,9 +503,11 @@ class ScalarField(fld.Field):
         if axe_x[0] > axe_x[-1]:
             axe_x = axe_x[::-1]
             values = values[::-1]
+            mask = mask[::-1]
         if axe_y[0] > axe_y[-1]:
             axe_y = axe_y[::-1]
             values = values[:, ::-1]
+            mask = mask[:, ::-1]
         # storing datas
         self.axe_x = axe_x
         self.axe_y = axe_y
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index f567e4e..78f86f2 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -557,10 +557,12 @@ class VectorField(field.Field):
             axe_x = axe_x[::-1]
             comp_x = comp_x[::-1]
             comp_y = comp_y[::-1]
+            mask = mask[::-1]
         if axe_y[0] > axe_y[-1]:
             axe_y = axe_y[::-1]
             comp_x = comp_x[:, ::-1]
             comp_y = comp_y[:, ::-1]
+            mask = mask[:, ::-1]
         # Store data
         self.axe_x = axe_x
         self.axe_y = axe_y
-- 
2.43.0


From b43b2b5a41c1d6f9e7e53241c0edf6dfde31373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:34 +0000
Subject: [PATCH 002/129] fix: import_from_arrays raised IndexError for fields
 with a single line or column

---
 IMTreatment/core/scalarfield.py | 4 ++--
 IMTreatment/core/vectorfield.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index e81a011..2bfd6a0 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -485,8 +485,8 @@ class ScalarField(fld.Field):
         delta_y = axe_y[1:] - axe_y[:-1]
         epsx_abs = delta_x*1e-6
         epsy_abs = delta_y*1e-6
-        if np.any(delta_y - delta_y[0] > epsy_abs) or \
-           np.any(delta_x - delta_x[0] > epsx_abs):
+        if np.any(delta_y - delta_y[:1] > epsy_abs) or \
+           np.any(delta_x - delta_x[:1] > epsx_abs):
             warnings.warn("Axis are not evenly spaced.\n"
                           "Consider using 'make_evenly_spaced' method"
                           " to avoid bad surprises.")
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 78f86f2..e38f476 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -537,8 +537,8 @@ class VectorField(field.Field):
         delta_y = axe_y[1:] - axe_y[:-1]
         epsx_abs = delta_x*1e-6
         epsy_abs = delta_y*1e-6
-        if np.any(delta_y - delta_y[0] > epsy_abs) or \
-           np.any(delta_x - delta_x[0] > epsx_abs):
+        if np.any(delta_y - delta_y[:1] > epsy_abs) or \
+           np.any(delta_x - delta_x[:1] > epsx_abs):
             warnings.warn("Axis are not evenly spaced.\n"
                           "Consider using 'make_evenly_spaced' method"
                           " to avoid bad surprises.")
-- 
2.43.0


From 53073e7ac945cc8d0a95477ca1481f387ac0749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:34 +0000
Subject: [PATCH 003/129] fix: ScalarField.extend(inplace=False) raised
 NameError

---
 IMTreatment/core/scalarfield.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 2bfd6a0..b6d9749 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1492,9 +1492,9 @@ class ScalarField(fld.Field):
                                     unit_y=tmpsf.unit_y,
                                     unit_values=tmpsf.unit_values)
         else:
-            new_field.values = new_values
-            new_field.mask = new_mask
-            return new_field
+            tmpsf.values = new_values
+            tmpsf.mask = new_mask
+            return tmpsf
 
     def mirroring(self, direction, position, inds_to_mirror='all',
                   mir_coef=1, interp=None, value=0, inplace=False):
-- 
2.43.0


From c97b8aeeaf74107b5395de84eefa27b5fae1b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:45 +0000
Subject: [PATCH 004/129] fix: crop(ind=True) refused windows ending at index 0

---
 IMTreatment/core/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 2e7c8d7..b56fc63 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -527,8 +527,8 @@ class Field(object):
             raise ValueError("'intervy' values must be crescent")
         # checking crooping windows
         if ind:
-            if intervx[0] < 0 or intervx[1] == 0 or \
-                    intervy[0] < 0 or intervy[1] == 0:
+            if intervx[0] < 0 or intervx[1] < 0 or \
+                    intervy[0] < 0 or intervy[1] < 0:
                 raise ValueError("Invalid cropping window")
         else:
             if np.all(intervx < axe_x[0]) or np.all(intervx > axe_x[-1])\
-- 
2.43.0


From 435e9ae385da3d133a9910c1a2fcfd3971e9e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:18 +0000
Subject: [PATCH 005/129] fix: rotate left the axis of a single line or column
 unturned

---
 IMTreatment/core/field.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index b56fc63..56a9f77 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -402,24 +402,19 @@ class Field(object):
             pass
         elif angle == 90:
             tmp_field.__axe_x, tmp_field.__axe_y \
-                = tmp_field.axe_y[::-1], tmp_field.axe_x
+                = -tmp_field.axe_y[::-1], tmp_field.axe_x
             tmp_field.__unit_x, tmp_field.__unit_y \
                 = tmp_field.unit_y, tmp_field.unit_x
         elif angle == 180:
             tmp_field.__axe_x, tmp_field.__axe_y \
-                = tmp_field.axe_x[::-1], tmp_field.axe_y[::-1]
+                = -tmp_field.axe_x[::-1], -tmp_field.axe_y[::-1]
         elif angle == 270:
             tmp_field.__axe_x, tmp_field.__axe_y \
-                = tmp_field.axe_y, tmp_field.axe_x[::-1]
+                = tmp_field.axe_y, -tmp_field.axe_x[::-1]
             tmp_field.__unit_x, tmp_field.__unit_y \
                 = tmp_field.unit_y, tmp_field.unit_x
         else:
             raise Exception()
-        # correction non-crescent axis
-        if tmp_field.axe_x[-1] < tmp_field.axe_x[0]:
-            tmp_field.__axe_x = -tmp_field.axe_x
-        if tmp_field.axe_y[-1] < tmp_field.axe_y[0]:
-            tmp_field.__axe_y = -tmp_field.axe_y
         # returning
         if not inplace:
             return tmp_field
-- 
2.43.0


From e3618bfef6678041bd532bef3161c12bc264cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:18 +0000
Subject: [PATCH 006/129] fix: a field returned by crop shared its data with
 the original

---
 IMTreatment/core/field.py       | 4 ++--
 IMTreatment/core/scalarfield.py | 4 ++--
 IMTreatment/core/vectorfield.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 56a9f77..467fd9b 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -563,8 +563,8 @@ class Field(object):
                 return indmin_x, indmax_x, indmin_y, indmax_y
         else:
             cropfield = self.copy()
-            cropfield.__axe_x = self.axe_x[indmin_x:indmax_x + 1]
-            cropfield.__axe_y = self.axe_y[indmin_y:indmax_y + 1]
+            cropfield.__axe_x = self.axe_x[indmin_x:indmax_x + 1].copy()
+            cropfield.__axe_y = self.axe_y[indmin_y:indmax_y + 1].copy()
             if full_output:
                 return indmin_x, indmax_x, indmin_y, indmax_y, cropfield
             else:
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index b6d9749..c155e30 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1414,9 +1414,9 @@ class ScalarField(fld.Field):
                 fld.Field.crop(self, intervx=intervx, intervy=intervy,
                                full_output=True, ind=ind, inplace=False)
             cropfield.__values = self.values[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
-                                         indmin_y:indmax_y + 1]
+                                         indmin_y:indmax_y + 1].copy()
             return cropfield
 
     def extend(self, nmb_left=0, nmb_right=0, nmb_up=0, nmb_down=0, value=None,
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index e38f476..236b780 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -999,11 +999,11 @@ class VectorField(field.Field):
                 field.Field.crop(self, intervx=intervx, intervy=intervy,
                                  full_output=True, ind=ind)
             cropfield.__comp_x = self.comp_x[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__comp_y = self.comp_y[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
-                                         indmin_y:indmax_y + 1]
+                                         indmin_y:indmax_y + 1].copy()
             return cropfield
 
     def crop_masked_border(self, hard=False, inplace=False):
-- 
2.43.0


From 8e421d1cded2ace95feb178953151d156e4d37bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:02 +0000
Subject: [PATCH 007/129] fix: crop_masked_border(inplace=False) returned None
 for a field without masked values

---
 IMTreatment/core/scalarfield.py | 2 +-
 IMTreatment/core/vectorfield.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index c155e30..fd26eec 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1743,7 +1743,7 @@ class ScalarField(fld.Field):
         # checking masked values presence
         mask = tmp_vf.mask
         if not np.any(mask):
-            return None
+            return None if inplace else tmp_vf
         # hard cropping
         if hard:
             # remove trivial borders
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 236b780..2205ecb 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1023,7 +1023,7 @@ class VectorField(field.Field):
         # checking masked values presence
         mask = tmp_sf.mask
         if not np.any(mask):
-            return None
+            return None if inplace else tmp_sf
         # hard cropping
         if hard:
             # remove trivial borders
-- 
2.43.0


From 1f4b576c8f9f43cb8522857bba26f07e549ce153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:02 +0000
Subject: [PATCH 008/129] fix: fill(crop=True, inplace=False) cropped the
 original field

---
 IMTreatment/core/scalarfield.py | 6 +++++-
 IMTreatment/core/vectorfield.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index fd26eec..749dda0 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1820,7 +1820,11 @@ class ScalarField(fld.Field):
             raise TypeError("'kind' must be a string")
         if not isinstance(value, NUMBERTYPES):
             raise TypeError("'value' must be a number")
-        if crop:
+        if crop and not inplace:
+            cropped = self.crop_masked_border(hard=False, inplace=False)
+            return cropped.fill(kind=kind, value=value, inplace=False,
+                                reduce_tri=reduce_tri)
+        elif crop:
             self.crop_masked_border(hard=False, inplace=True)
         # getting data
         x, y = self.axe_x, self.axe_y
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 2205ecb..5ac7e72 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -943,7 +943,11 @@ class VectorField(field.Field):
         value = np.array(value)
         if not value.shape == (2,):
             raise ValueError()
-        if crop:
+        if crop and not inplace:
+            cropped = self.crop_masked_border(hard=False, inplace=False)
+            return cropped.fill(kind=kind, value=value, inplace=False,
+                                reduce_tri=reduce_tri)
+        elif crop:
             self.crop_masked_border(hard=False, inplace=True)
         # filling components
         comp_x = self.comp_x_as_sf
-- 
2.43.0


From 28c20b0f6610b396283a8136f7c33cfd2955d787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:02 +0000
Subject: [PATCH 009/129] fix: VectorField.scale with a negative factor did not
 reverse the mask

---
 IMTreatment/core/vectorfield.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 5ac7e72..933317e 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -732,12 +732,15 @@ class VectorField(field.Field):
         if revx and revy:
             tmp_f.comp_x = -tmp_f.comp_x[::-1, ::-1]
             tmp_f.comp_y = -tmp_f.comp_y[::-1, ::-1]
+            tmp_f.__mask = tmp_f.mask[::-1, ::-1]
         elif revx:
             tmp_f.comp_x = -tmp_f.comp_x[::-1, :]
             tmp_f.comp_y = tmp_f.comp_y[::-1, :]
+            tmp_f.__mask = tmp_f.mask[::-1, :]
         elif revy:
             tmp_f.comp_x = tmp_f.comp_x[:, ::-1]
             tmp_f.comp_y = -tmp_f.comp_y[:, ::-1]
+            tmp_f.__mask = tmp_f.mask[:, ::-1]
         # returning
         if not inplace:
             return tmp_f
-- 
2.43.0


From 7241a21fe225ef825e4a155226c105378074a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 010/129] fix: adding vector fields with partly common axes
 dropped the coordinate 0

---
 IMTreatment/core/vectorfield.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 933317e..a1467b3 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -76,16 +76,16 @@ class VectorField(field.Field):
             # different shape, partially same axis
             else:
                 # getting shared points
-                new_ind_x = np.array([np.any(np.abs(val - other.axe_x) <
+                new_ind_x = np.array([np.any(np.abs(val - other.axe_x) <=
                                       np.abs(val)*1e-4)
                                       for val in self.axe_x])
-                new_ind_y = np.array([np.any(np.abs(val - other.axe_y) <
+                new_ind_y = np.array([np.any(np.abs(val - other.axe_y) <=
                                       np.abs(val)*1e-4)
                                       for val in self.axe_y])
-                new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <
+                new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <=
                                        np.abs(val)*1e-4)
                                        for val in other.axe_x])
-                new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <
+                new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <=
                                        np.abs(val)*1e-4)
                                        for val in other.axe_y])
                 if not np.any(new_ind_x) or not np.any(new_ind_y):
-- 
2.43.0


From 87d333e5d72094ff30ac697edaf67503a8189fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 011/129] fix: VectorField * ScalarField ignored the unit of
 the scalar field

---
 IMTreatment/core/vectorfield.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index a1467b3..477fe4c 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -231,8 +231,10 @@ class VectorField(field.Field):
             if other.shape != self.shape:
                 raise ValueError()
             tmpvf = self.copy()
-            tmpvf.comp_x *= other.values
-            tmpvf.comp_y *= other.values
+            unit = self.unit_values*other.unit_values
+            tmpvf.comp_x *= other.values*unit.asNumber()
+            tmpvf.comp_y *= other.values*unit.asNumber()
+            tmpvf.unit_values = unit/unit.asNumber()
             tmpvf.mask = np.logical_or(other.mask, self.mask)
             return tmpvf
         else:
-- 
2.43.0


From f3e7ceeafb55a2a3af39dad617b417567ac3e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 012/129] fix: VectorField + quantity accepted incompatible
 units

---
 IMTreatment/core/vectorfield.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 477fe4c..e35f489 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -138,6 +138,11 @@ class VectorField(field.Field):
             else:
                 raise ValueError()
         elif isinstance(other, unum.Unum):
+            try:
+                self.unit_values + other
+            except:
+                raise ValueError("Given number have to be consistent with"
+                                 "the vector field (same units)")
             tmpvf = self.copy()
             fact = (other / self.unit_values).asNumber()
             tmpvf.comp_x = self.comp_x + fact
-- 
2.43.0


From 859112ba691e20b2d539c5bc8b1d51fbf4bbe374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 013/129] fix: ScalarField.get_value only looked at two corners
 of a cell for masked values

---
 IMTreatment/core/scalarfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 749dda0..31afdb0 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -573,7 +573,7 @@ class ScalarField(fld.Field):
             inds_x = self.get_indice_on_axe(1, x)
             inds_y = self.get_indice_on_axe(2, y)
             # if something masked
-            if np.sum(self.mask[inds_x, inds_y]) != 0:
+            if np.sum(self.mask[np.ix_(inds_x, inds_y)]) != 0:
                 res = np.NaN
             # if we are on a grid point
             elif inds_x[0] == inds_x[1] and inds_y[0] == inds_y[1]:
-- 
2.43.0


From 4811b9e0f1447733a862dc18b762e37b453f1524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 014/129] fix: get_profile with an interval of indices raised
 TypeError

---
 IMTreatment/core/scalarfield.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 31afdb0..0a2aefc 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -930,6 +930,7 @@ class ScalarField(fld.Field):
                 profile = self.values[:, axe_mask].mean(1)
                 axe = self.axe_x
         elif isinstance(position, ARRAYTYPES) and ind:
+            position = np.array(position, dtype=int)
             if direction == 'x':
                 prof_mask = self.mask[position[0]:position[1], :].mean(0)
                 profile = self.values[position[0]:position[1], :].mean(0)
-- 
2.43.0


From df253976c152d33411b9d12be97267d5036749f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 015/129] fix: reduce_spatial_resolution(inplace=True) lost the
 units

---
 IMTreatment/core/scalarfield.py | 1 -
 IMTreatment/core/vectorfield.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 0a2aefc..f24e549 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -2055,7 +2055,6 @@ class ScalarField(fld.Field):
         new_values = np.array(new_values, dtype=self._values_dtype)
         # returning
         if inplace:
-            self.__init__()
             self.import_from_arrays(new_axe_x, new_axe_y, new_values,
                                     mask=new_mask,
                                     unit_x=self.unit_x, unit_y=self.unit_y,
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index e35f489..5416099 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1219,7 +1219,6 @@ class VectorField(field.Field):
         Vy.reduce_spatial_resolution(fact, inplace=True)
         # returning
         if inplace:
-            self.__init__()
             self.import_from_arrays(Vx.axe_x, Vx.axe_y, Vx.values,
                                     Vy.values,
                                     mask=Vx.mask, unit_x=self.unit_x,
-- 
2.43.0


From f01a5971e2e8f13cc893ccbef8d128be6c4f0531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 016/129] fix: reduce_spatial_resolution raised TypeError for
 odd factors

---
 IMTreatment/core/scalarfield.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index f24e549..b8e647a 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -2035,16 +2035,16 @@ class ScalarField(fld.Field):
                                                    [~mask[intervx, intervy]])
 
         else:
-            inds_x = np.arange((fact - 1)/2, len(axe_x) - (fact - 1)/2, fact)
-            inds_y = np.arange((fact - 1)/2, len(axe_y) - (fact - 1)/2, fact)
+            inds_x = np.arange((fact - 1)//2, len(axe_x) - (fact - 1)//2, fact)
+            inds_y = np.arange((fact - 1)//2, len(axe_y) - (fact - 1)//2, fact)
             new_values = np.zeros((len(inds_x), len(inds_y)))
             new_mask = np.zeros((len(inds_x), len(inds_y)))
             for i in np.arange(len(inds_x)):
-                intervx = slice(inds_x[i] - (fact - 1)/2,
-                                inds_x[i] + (fact - 1)/2 + 1)
+                intervx = slice(inds_x[i] - (fact - 1)//2,
+                                inds_x[i] + (fact - 1)//2 + 1)
                 for j in np.arange(len(inds_y)):
-                    intervy = slice(inds_y[j] - (fact - 1)/2,
-                                    inds_y[j] + (fact - 1)/2 + 1)
+                    intervy = slice(inds_y[j] - (fact - 1)//2,
+                                    inds_y[j] + (fact - 1)//2 + 1)
                     if np.all(mask[intervx, intervy]):
                         new_mask[i, j] = True
                         new_values[i, j] = 0.
-- 
2.43.0


From cc47b64ac51fc47c90f6c46159af75f5d0f4122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:53 +0000
Subject: [PATCH 017/129] fix: products of vector fields were refused when the
 rounded unit factor was not exactly 1

---
 IMTreatment/core/vectorfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 5416099..43fc627 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -401,7 +401,7 @@ class VectorField(field.Field):
     @unit_values.setter
     def unit_values(self, new_unit_values):
         if isinstance(new_unit_values, unum.Unum):
-            if new_unit_values.asNumber() == 1:
+            if np.isclose(new_unit_values.asNumber(), 1):
                 self.__unit_values = new_unit_values
             else:
                 raise ValueError()
-- 
2.43.0


From 867684ec84b528a978fcc484a895b18ee9fdec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:53 +0000
Subject: [PATCH 018/129] fix: ScalarField.unit_values accepted units with a
 factor below 1

---
 IMTreatment/core/scalarfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index b8e647a..c3069b9 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -390,7 +390,7 @@ class ScalarField(fld.Field):
     @unit_values.setter
     def unit_values(self, new_unit_values):
         if isinstance(new_unit_values, unum.Unum):
-            if (new_unit_values.asNumber() - 1.) < 1e-10:
+            if np.isclose(new_unit_values.asNumber(), 1):
                 self.__unit_values = new_unit_values
             else:
                 raise ValueError()
-- 
2.43.0


From c411b12913e3757c0040592f246a80622ac46b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:37 +0000
Subject: [PATCH 019/129] fix: results of ScalarField products shared their
 mask with the operand

---
 IMTreatment/core/scalarfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index c3069b9..67870b0 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -328,7 +328,7 @@ class ScalarField(fld.Field):
     def values(self, new_values):
         if not isinstance(new_values, ARRAYTYPES):
             raise TypeError()
-        new_values = np.asarray(new_values)
+        new_values = np.array(new_values)
         if self.shape == new_values.shape:
             # adapting mask to 'nan' values
             self.__mask = np.isnan(new_values)
@@ -355,7 +355,7 @@ class ScalarField(fld.Field):
             new_mask = np.empty(self.shape, dtype=bool)
             new_mask.fill(fill_value)
         elif isinstance(new_mask, ARRAYTYPES):
-            new_mask = np.asarray(new_mask, dtype=bool)
+            new_mask = np.array(new_mask, dtype=bool)
         else:
             raise TypeError("'mask' should be an array or a boolean,"
                             " not a {}".format(type(new_mask)))
-- 
2.43.0


From b912c6edfcfd1403d883c982f20ef1e796bacef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:52 +0000
Subject: [PATCH 020/129] fix: ScalarField times (or dividing) a quantity lost
 the factor between units of the same dimension

---
 IMTreatment/core/scalarfield.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 67870b0..e4ae040 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -211,8 +211,9 @@ class ScalarField(fld.Field):
             return tmpsf
         elif isinstance(obj, unum.Unum):
             tmpsf = self.copy()
-            tmpsf.values = obj.asNumber()/tmpsf.values
-            tmpsf.unit_values = obj/obj.asNumber()/tmpsf.unit_values
+            unit_values = obj / tmpsf.unit_values
+            tmpsf.values = unit_values.asNumber()/tmpsf.values
+            tmpsf.unit_values = unit_values/unit_values.asNumber()
             return tmpsf
         elif isinstance(obj, ARRAYTYPES):
             obj = np.array(obj, subok=True)
@@ -250,8 +251,9 @@ class ScalarField(fld.Field):
             return tmpsf
         elif isinstance(obj, unum.Unum):
             tmpsf = self.copy()
-            tmpsf.values *= obj.asNumber()
-            tmpsf.unit_values *= obj/obj.asNumber()
+            unit_values = tmpsf.unit_values * obj
+            tmpsf.values *= unit_values.asNumber()
+            tmpsf.unit_values = unit_values/unit_values.asNumber()
             tmpsf.mask = self.mask
             return tmpsf
         elif isinstance(obj, ARRAYTYPES):
-- 
2.43.0


From a48322a166f61994169533dc6593bcdaa48d2eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:19 +0000
Subject: [PATCH 021/129] fix: extend could add one line too many to an axis
 because of rounding

---
 IMTreatment/core/field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 467fd9b..c080b68 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -592,22 +592,22 @@ class Field(object):
         if nmb_left != 0:
             dx = self.axe_x[1] - self.axe_x[0]
             x0 = self.axe_x[0]
-            new_xs = np.arange(x0-dx*nmb_left, x0, dx)
+            new_xs = x0 - dx*np.arange(nmb_left, 0, -1)
             new_axe_x = np.concatenate((new_xs, new_axe_x))
         if nmb_right != 0:
             dx = self.axe_x[-1] - self.axe_x[-2]
             x0 = self.axe_x[-1]
-            new_xs = np.arange(x0 + dx, x0+dx*(nmb_right + 1), dx)
+            new_xs = x0 + dx*np.arange(1, nmb_right + 1)
             new_axe_x = np.concatenate((new_axe_x, new_xs))
         if nmb_down != 0:
             dy = self.axe_y[1] - self.axe_y[0]
             y0 = self.axe_y[0]
-            new_ys = np.arange(y0-dy*nmb_down, y0, dy)
+            new_ys = y0 - dy*np.arange(nmb_down, 0, -1)
             new_axe_y = np.concatenate((new_ys, new_axe_y))
         if nmb_up != 0:
             dy = self.axe_y[-1] - self.axe_y[-2]
             y0 = self.axe_y[-1]
-            new_ys = np.arange(y0 + dy, y0+dy*(nmb_up + 1), dy)
+            new_ys = y0 + dy*np.arange(1, nmb_up + 1)
             new_axe_y = np.concatenate((new_axe_y, new_ys))
         if inplace:
             self.__axe_x = new_axe_x
-- 
2.43.0


From 3a85adbe67f39bc06c4f6a7763230eae32e1fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:13 +0000
Subject: [PATCH 022/129] fix: add_field converted the time of the new field by
 the inverse of the unit ratio

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index bdaf115..5a52daa 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1134,7 +1134,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
         flds.Fields.add_field(self, field, copy=copy)
-- 
2.43.0


From 2a3fca6d1f4d9fda24a3ea709292387007617927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:13 +0000
Subject: [PATCH 023/129] fix: add_field accepted fields that differ from the
 set by one axis only

---
 IMTreatment/core/temporalfields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 5a52daa..75d6872 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1130,7 +1130,8 @@ class TemporalFields(flds.Fields, fld.Field):
             # checking axis
             axe_x, axe_y = self.axe_x, self.axe_y
             vaxe_x, vaxe_y = field.axe_x, field.axe_y
-            if not np.all(axe_x == vaxe_x) and np.all(axe_y == vaxe_y):
+            if not (np.array_equal(axe_x, vaxe_x)
+                    and np.array_equal(axe_y, vaxe_y)):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             # storing time
-- 
2.43.0


From 7bb12f1f68f986d3131afcae644161073bf12bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:13 +0000
Subject: [PATCH 024/129] fix: the times of a temporal set stayed tied to the
 array they were given as (and lists broke unit changes)

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 75d6872..082875b 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -243,7 +243,7 @@ class TemporalFields(flds.Fields, fld.Field):
             raise ValueError("New number of time ({}) do not corespond to "
                              "the number of fields ({})"
                              .format(len(values), len(self.fields)))
-        self.__times = values
+        self.__times = np.array(values, dtype=float)
 
     @times.deleter
     def times(self):
-- 
2.43.0


From 0c9370725cffa5a8447b08b000964773514bd853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:30 +0000
Subject: [PATCH 025/129] fix: setting unit_times with a string had no effect

---
 IMTreatment/core/temporalfields.py | 2 +-
 IMTreatment/core/temporalpoints.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 082875b..71f26f9 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -265,7 +265,7 @@ class TemporalFields(flds.Fields, fld.Field):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index a495f81..125cbb5 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -107,7 +107,7 @@ class TemporalPoints(object):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
-- 
2.43.0


From 3488cfdc6463a168f2b6f670848b4b5af7aca07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:30 +0000
Subject: [PATCH 026/129] fix: removing several fields at once removed the
 wrong ones

---
 IMTreatment/core/fields.py         | 3 +--
 IMTreatment/core/temporalfields.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/fields.py b/IMTreatment/core/fields.py
index e8dc468..a7cdcb9 100644
--- a/IMTreatment/core/fields.py
+++ b/IMTreatment/core/fields.py
@@ -148,8 +148,7 @@ class Fields(object):
         """
         if isinstance(fieldnumbers, INTEGERTYPES):
             fieldnumbers = [fieldnumbers]
-        for nmb in fieldnumbers:
-            self.fields = np.delete(self.fields, nmb)
+        self.fields = np.delete(self.fields, fieldnumbers)
 
     def set_origin(self, x=None, y=None):
         """
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 71f26f9..e54cd7f 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1153,8 +1153,7 @@ class TemporalFields(flds.Fields, fld.Field):
         """
         if isinstance(fieldnumbers, INTEGERTYPES):
             fieldnumbers = [fieldnumbers]
-        for nmb in fieldnumbers:
-            self.__times = np.delete(self.times, nmb)
+        self.__times = np.delete(self.times, fieldnumbers)
         flds.Fields.remove_field(self, fieldnumbers)
 
     def reduce_spatial_resolution(self, fact, inplace=False, verbose=False):
-- 
2.43.0


From a08010b1396d3bca11793fb662d22a88d9bf27eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:37 +0000
Subject: [PATCH 027/129] fix: scaling a temporal set by a negative factor
 reversed the axes but not the fields

---
 IMTreatment/core/temporalfields.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index e54cd7f..1fda615 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1007,10 +1007,18 @@ class TemporalFields(flds.Fields, fld.Field):
         for field in self.fields:
             if not hasattr(field, "xy_scale"):
                 field.xy_scale = self.xy_scale
-        fld.Field.scale(tmp_f, scalex=scalex, scaley=scaley,
-                        inplace=True)
-        # scale the values
-        flds.Fields.scale(tmp_f, scalev=scalev, inplace=True)
+        if len(tmp_f.fields) == 0:
+            fld.Field.scale(tmp_f, scalex=scalex, scaley=scaley,
+                            inplace=True)
+        else:
+            flds.Fields.scale(tmp_f, scalex=scalex, scaley=scaley,
+                              scalev=scalev, inplace=True)
+            # get the scaled axis from the fields
+            tmp_f.xy_scale = tmp_f.fields[0].xy_scale
+            tmp_f.unit_x = tmp_f.fields[0].unit_x
+            tmp_f.unit_y = tmp_f.fields[0].unit_y
+            tmp_f.axe_x = tmp_f.fields[0].axe_x
+            tmp_f.axe_y = tmp_f.fields[0].axe_y
         # scale the time
         if scalet is None:
             pass
-- 
2.43.0


From 50e2987d0071ccae2ad8046a70e5769ebe418234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:37 +0000
Subject: [PATCH 028/129] fix: crop_masked_border returned nothing when there
 was nothing to crop

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 1fda615..ff5a965 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1310,7 +1310,7 @@ class TemporalFields(flds.Fields, fld.Field):
         mask_cum = self.mask_cum
         # checking masked values presence
         if not np.any(mask_cum):
-            return None
+            return None if inplace else self.copy()
         # hard cropping
         if hard:
             if inplace:
@@ -1359,7 +1359,7 @@ class TemporalFields(flds.Fields, fld.Field):
             axe_x_m = ~np.all(mask_cum, axis=1)
             # skip if nothing to do
             if not np.any(axe_y_m) or not np.any(axe_x_m):
-                return None
+                return None if inplace else self.copy()
             # getting indices where we need to cut
             axe_x_min = np.where(axe_x_m)[0][0]
             axe_x_max = np.where(axe_x_m)[0][-1]
-- 
2.43.0


From 985810e5075eb6dbfacb93fca613cad8420fb795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:37 +0000
Subject: [PATCH 029/129] fix: reduce_spatial_resolution did not update the
 axes of the set it returns

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index ff5a965..bceb779 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1189,8 +1189,8 @@ class TemporalFields(flds.Fields, fld.Field):
             if verbose:
                 pg.print_progress()
         #
-        self.axe_x = self.fields[0].axe_x
-        self.axe_y = self.fields[0].axe_y
+        tmpfs.axe_x = tmpfs.fields[0].axe_x
+        tmpfs.axe_y = tmpfs.fields[0].axe_y
         return tmpfs
 
     def reduce_temporal_resolution(self, nmb_in_interval, mean=True,
-- 
2.43.0


From 51a9c1477c7dbb7db6e8f042cc7c40ab9e491b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:37 +0000
Subject: [PATCH 030/129] fix: mirroring did not update the axes of the
 temporal set

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index bceb779..bb89118 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1418,8 +1418,8 @@ class TemporalFields(flds.Fields, fld.Field):
                                        mir_coef=mir_coef, inplace=True,
                                        interp=interp, value=value)
         # update field
-        tmp_tf.__axe_x = self.fields[0].axe_x
-        tmp_tf.__axe_y = self.fields[0].axe_y
+        tmp_tf.axe_x = tmp_tf.fields[0].axe_x
+        tmp_tf.axe_y = tmp_tf.fields[0].axe_y
         # return
         if not inplace:
             return tmp_tf
-- 
2.43.0


From a2331c8411b184096ec646c39a13ed285e556a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:37 +0000
Subject: [PATCH 031/129] fix: after make_evenly_spaced the set shared its axes
 with its first field

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index bb89118..800e415 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1052,8 +1052,8 @@ class TemporalFields(flds.Fields, fld.Field):
         # raise NotImplementedError('Not implemented yet')
         for field in self.fields:
             field.make_evenly_spaced(interp=interp, res=res)
-        self._Field__axe_x = self.fields[0].axe_x
-        self._Field__axe_y = self.fields[0].axe_y
+        self.axe_x = self.fields[0].axe_x
+        self.axe_y = self.fields[0].axe_y
         self.__mask = False
 
     def change_unit(self, axe, new_unit):
-- 
2.43.0


From a5c7011cdbd057d9c3ccce2ea12e6b513afc83e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:02 +0000
Subject: [PATCH 032/129] fix: filling a temporal set modified the original
 when asked for a copy, and temporal filling of scalar fields failed

---
 IMTreatment/core/temporalscalarfields.py | 30 +++++++++---------------
 IMTreatment/core/temporalvectorfields.py | 28 ++++++++--------------
 2 files changed, 21 insertions(+), 37 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index efa27e4..58db082 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -355,20 +355,23 @@ class TemporalScalarFields(tf.TemporalFields):
             raise TypeError()
         if kind not in ['value', 'nearest', 'linear', 'cubic']:
             raise ValueError()
+        # inplace or not
+        tmp_tsf = self if inplace else self.copy()
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_tsf.crop_masked_border(hard=False, inplace=True)
+        fields = tmp_tsf.fields
         # temporal interpolation
         if tof == 'temporal':
             # getting datas
             # getting super mask (0 where no value are masked and where all
             # values are masked)
-            masks = self.mask
+            masks = tmp_tsf.mask
             sum_masks = np.sum(masks, axis=0)
             super_mask = np.logical_and(0 < sum_masks,
                                         sum_masks < len(self.fields) - 2)
             # loop on each field position
             for i, j in np.argwhere(super_mask):
-                prof = self.get_time_profile('values', i, j, ind=True)
+                prof = tmp_tsf.get_time_profile('values', [i, j], ind=True)
                 # creating interpolation function
                 if kind == 'value':
                     def interp(x):
@@ -388,32 +391,21 @@ class TemporalScalarFields(tf.TemporalFields):
                                                kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all profile masked points
-                for ind_masked in prof.mask:
+                for ind_masked in np.where(prof.mask)[0]:
                     try:
-                        interp_val = interp(prof.x[prof.mask])
+                        interp_val = interp(prof.x[ind_masked])
                     except ValueError:
                         continue
                     # putting interpolated value in the field
-                    fields[prof.mask].values[i, j] = interp_val
-                    fields[prof.mask].mask[i, j] = False
+                    fields[ind_masked].values[i, j] = interp_val
+                    fields[ind_masked].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
-            if inplace:
-                fields = self.fields
-            else:
-                tmp_tsf = self.copy()
-                fields = tmp_tsf.fields
             for i, field in enumerate(fields):
                 fields[i].fill(kind=kind, value=value, inplace=True)
         else:
             raise ValueError("Unknown parameter for 'tof' : {}".format(tof))
         # returning
-        if inplace:
-            self.fields = fields
-        else:
-            tmp_tsf = self.copy()
-            tmp_tsf.fields = fields
+        if not inplace:
             return tmp_tsf
diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index 79348a5..380566f 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -288,23 +288,26 @@ class TemporalVectorFields(tf.TemporalFields):
         elif not isinstance(value, ARRAYTYPES):
             raise TypeError()
         value = np.array(value)
+        # inplace or not
+        tmp_tvf = self if inplace else self.copy()
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_tvf.crop_masked_border(hard=False, inplace=True)
+        fields = tmp_tvf.fields
         # temporal interpolation
         if tof == 'temporal':
             # getting super mask (0 where no value are masked and where all
             # values are masked)
-            masks = self.mask
+            masks = tmp_tvf.mask
             sum_masks = np.sum(masks, axis=0)
             super_mask = np.logical_and(0 < sum_masks,
                                         sum_masks < len(self.fields) - 2)
             # loop on each field position
             for i, j in np.argwhere(super_mask):
                 # get time profiles
-                prof_x = self.get_time_profile(component='comp_x', pt=[i, j],
-                                               ind=True)
-                prof_y = self.get_time_profile(component='comp_y', pt=[i, j],
-                                               ind=True)
+                prof_x = tmp_tvf.get_time_profile(component='comp_x',
+                                                  pt=[i, j], ind=True)
+                prof_y = tmp_tvf.get_time_profile(component='comp_y',
+                                                  pt=[i, j], ind=True)
                 # getting masked position on profile
                 inds_masked_x = np.where(prof_x.mask)[0]
                 inds_masked_y = np.where(prof_y.mask)[0]
@@ -336,8 +339,6 @@ class TemporalVectorFields(tf.TemporalFields):
                                                  kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all x profile masked points
                 for ind_masked in inds_masked_x:
                     try:
@@ -358,19 +359,10 @@ class TemporalVectorFields(tf.TemporalFields):
                     fields[ind_masked].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
-            if inplace:
-                fields = self.fields
-            else:
-                tmp_tvf = self.copy()
-                fields = tmp_tvf.fields
             for i, field in enumerate(fields):
                 fields[i].fill(kind=kind, value=value, inplace=True)
         else:
             raise ValueError("Unknown parameter for 'tof' : {}".format(tof))
         # returning
-        if inplace:
-            self.fields = fields
-        else:
-            tmp_tvf = self.copy()
-            tmp_tvf.fields = fields
+        if not inplace:
             return tmp_tvf
-- 
2.43.0


From af727578ac145942f7eba7c58e1417ddfca19cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:23 +0000
Subject: [PATCH 033/129] fix: a refused crop in place still removed fields
 from the temporal set

---
 IMTreatment/core/temporalfields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 800e415..f18f9b9 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1530,13 +1530,13 @@ class TemporalFields(flds.Fields, fld.Field):
             cropfield = self
         else:
             cropfield = self.copy()
+        # spatial (first, because refused windows must leave the set untouched)
+        fld.Field.crop(cropfield, intervx=intervx, intervy=intervy, ind=ind,
+                       inplace=True)
         # temporal
         if intervt is not None:
             cropfield.fields = cropfield.fields[intervt[0]:intervt[1] + 1]
             cropfield.times = cropfield.times[intervt[0]:intervt[1] + 1]
-        # spatial
-        fld.Field.crop(cropfield, intervx=intervx, intervy=intervy, ind=ind,
-                       inplace=True)
         for field in cropfield.fields:
             field.crop(intervx=intervx, intervy=intervy, ind=ind,
                        inplace=True)
-- 
2.43.0


From fb73e4534fbbff40618988499aead0b0260225fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:37 +0000
Subject: [PATCH 034/129] fix: get_min_field and get_max_field were wrong at
 the points masked in the first field

---
 IMTreatment/core/temporalscalarfields.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 58db082..0d473d8 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -64,8 +64,11 @@ class TemporalScalarFields(tf.TemporalFields):
         mask_cum = np.zeros(self.shape, dtype=int)
         mask_cum[np.logical_not(self.fields[0].mask)] += 1
         for field in self.fields[1::]:
-            new_min_mask = np.logical_and(field.values < result_f.values,
+            new_min_mask = np.logical_or(mask_cum == 0,
+                                         field.values < result_f.values)
+            new_min_mask = np.logical_and(new_min_mask,
                                           np.logical_not(field.mask))
+            result_f.mask[new_min_mask] = False
             result_f.values[new_min_mask] = field.values[new_min_mask]
             mask_cum[np.logical_not(field.mask)] += 1
         mask = mask_cum <= nmb_min
@@ -88,8 +91,11 @@ class TemporalScalarFields(tf.TemporalFields):
         mask_cum = np.zeros(self.shape, dtype=int)
         mask_cum[np.logical_not(self.fields[0].mask)] += 1
         for field in self.fields[1::]:
-            new_max_mask = np.logical_and(field.values > result_f.values,
+            new_max_mask = np.logical_or(mask_cum == 0,
+                                         field.values > result_f.values)
+            new_max_mask = np.logical_and(new_max_mask,
                                           np.logical_not(field.mask))
+            result_f.mask[new_max_mask] = False
             result_f.values[new_max_mask] = field.values[new_max_mask]
             mask_cum[np.logical_not(field.mask)] += 1
         mask = mask_cum <= nmb_min
-- 
2.43.0


From bd0f574a0b0be0050f784d6ae85636172d91fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:16 +0000
Subject: [PATCH 035/129] fix: products and ratios of temporal sets accepted
 sets that differ by one axis only

---
 IMTreatment/core/temporalfields.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index f18f9b9..484d988 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -92,8 +92,8 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(other, self.__class__):
             if not len(self) == len(other):
                 raise Exception()
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.array_equal(self.axe_x, other.axe_x)
+                    and np.array_equal(self.axe_y, other.axe_y)):
                 raise Exception()
             if not np.all(self.times == other.times):
                 raise Exception()
@@ -116,8 +116,8 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(other, self.__class__):
             if not len(self) == len(other):
                 raise Exception()
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.array_equal(self.axe_x, other.axe_x)
+                    and np.array_equal(self.axe_y, other.axe_y)):
                 raise Exception()
             if not np.all(self.times == other.times):
                 raise Exception()
@@ -126,8 +126,8 @@ class TemporalFields(flds.Fields, fld.Field):
                 vfs.add_field(self.fields[i]/other.fields[i])
             return vfs
         elif isinstance(other, self.fields[0].__class__):
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.array_equal(self.axe_x, other.axe_x)
+                    and np.array_equal(self.axe_y, other.axe_y)):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-- 
2.43.0


From 57bbd99e29979b5abf192655f6d977fa61103bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:16 +0000
Subject: [PATCH 036/129] fix: operations between temporal sets ignored the
 time unit, and adding sets at different times put the added fields at time 0

---
 IMTreatment/core/temporalfields.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 484d988..5a87d34 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -55,6 +55,12 @@ class TemporalFields(flds.Fields, fld.Field):
         self.unit_y = make_unit('')
         self.unit_times = make_unit('')
 
+    def __same_times(self, other):
+        fact = (other.unit_times/self.unit_times).asNumber()
+        return (len(self.times) == len(other.times)
+                and np.allclose(self.times, other.times*fact, rtol=1e-12,
+                                atol=0))
+
     def __add__(self, other):
         if isinstance(other, self.fields[0].__class__):
             tmp_TF = self.copy()
@@ -63,12 +69,13 @@ class TemporalFields(flds.Fields, fld.Field):
             return tmp_TF
         elif isinstance(other, self.__class__):
             tmp_tf = self.copy()
-            if np.all(self.times == other.times):
+            if self.__same_times(other):
                 for i in np.arange(len(self.fields)):
                     tmp_tf.fields[i] += other.fields[i]
             else:
                 for i in np.arange(len(other.fields)):
-                    tmp_tf.add_field(other.fields[i])
+                    tmp_tf.add_field(other.fields[i], time=other.times[i],
+                                     unit_times=other.unit_times)
             return tmp_tf
         else:
             tmp_TF = self.copy()
@@ -95,7 +102,7 @@ class TemporalFields(flds.Fields, fld.Field):
             if not (np.array_equal(self.axe_x, other.axe_x)
                     and np.array_equal(self.axe_y, other.axe_y)):
                 raise Exception()
-            if not np.all(self.times == other.times):
+            if not self.__same_times(other):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
@@ -119,7 +126,7 @@ class TemporalFields(flds.Fields, fld.Field):
             if not (np.array_equal(self.axe_x, other.axe_x)
                     and np.array_equal(self.axe_y, other.axe_y)):
                 raise Exception()
-            if not np.all(self.times == other.times):
+            if not self.__same_times(other):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-- 
2.43.0


From 1f9f2ca99325d1fe39e99270e707ee2b156c4e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:16 +0000
Subject: [PATCH 037/129] fix: products, ratios and powers of temporal sets
 lost the times

---
 IMTreatment/core/temporalfields.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 5a87d34..623d97a 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -106,12 +106,15 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]*other.fields[i])
+                vfs.add_field(self.fields[i]*other.fields[i],
+                              time=self.times[i],
+                              unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
-            for field in self.fields:
-                final_vfs.add_field(field*other)
+            for i, field in enumerate(self.fields):
+                final_vfs.add_field(field*other, time=self.times[i],
+                                    unit_times=self.unit_times)
             return final_vfs
         else:
             raise TypeError("You can only multiply a temporal velocity field "
@@ -130,7 +133,9 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other.fields[i])
+                vfs.add_field(self.fields[i]/other.fields[i],
+                              time=self.times[i],
+                              unit_times=self.unit_times)
             return vfs
         elif isinstance(other, self.fields[0].__class__):
             if not (np.array_equal(self.axe_x, other.axe_x)
@@ -138,7 +143,8 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other)
+                vfs.add_field(self.fields[i]/other, time=self.times[i],
+                              unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
@@ -156,8 +162,9 @@ class TemporalFields(flds.Fields, fld.Field):
             raise TypeError("You only can use a number for the power "
                             "on a Vectorfield")
         final_vfs = self.__class__()
-        for field in self.fields:
-            final_vfs.add_field(np.power(field, number))
+        for i, field in enumerate(self.fields):
+            final_vfs.add_field(np.power(field, number), time=self.times[i],
+                                unit_times=self.unit_times)
         return final_vfs
 
     def __iter__(self):
-- 
2.43.0


From 32fa95007ee20ea1f30ee115882e4993d98878d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:16 +0000
Subject: [PATCH 038/129] fix: dividing a temporal set by a number failed

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 623d97a..6f8f750 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -149,7 +149,7 @@ class TemporalFields(flds.Fields, fld.Field):
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
             for i, field in enumerate(self.fields):
-                final_vfs.add_field(other, time=self.times[i],
+                final_vfs.add_field(field/other, time=self.times[i],
                                     unit_times=self.unit_times)
             return final_vfs
         else:
-- 
2.43.0


From 84afed6b63d63e895e78165765c01288e20e4f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:16 +0000
Subject: [PATCH 039/129] fix: get_interpolated_field returned the stored field
 itself (and failed when the fields are a list)

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 6f8f750..9a9fc6a 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -346,7 +346,7 @@ class TemporalFields(flds.Fields, fld.Field):
         assert time <= self.times[-1]
         # if time is in self.times
         if np.any(self.times == time):
-            return self.fields[self.times == time][0]
+            return self.fields[np.where(self.times == time)[0][0]].copy()
         # else, get the surrounding fields
         ind_time = np.argwhere(self.times > time)[0][0]
         denom = self.times[ind_time] - self.times[ind_time - 1]
-- 
2.43.0


From 54341567ca52319b58d31f04c57850c2fadf6e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:16 +0000
Subject: [PATCH 040/129] fix: augment_temporal_resolution left the fields in a
 list, which other operations cannot use

---
 IMTreatment/core/temporalfields.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 9a9fc6a..2e837dc 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1302,7 +1302,9 @@ class TemporalFields(flds.Fields, fld.Field):
         for time in new_times:
             new_fields.append(tf.get_interpolated_field(time))
         # store
-        tf.fields = new_fields
+        tf.fields = np.empty(len(new_fields), dtype=object)
+        for i, field in enumerate(new_fields):
+            tf.fields[i] = field
         tf.times = new_times
         # returning
         if not inplace:
-- 
2.43.0


From ade7f5be08cb9584cf73efb8d0b81c652347f694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:16 +0000
Subject: [PATCH 041/129] fix: reduce_temporal_resolution dropped the last
 interval

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 2e837dc..0c22e40 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1254,7 +1254,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 time /= nmb_in_interval
             tmp_TFS.add_field(tmp_f, time, self.unit_times)
             i += nmb_in_interval
-            if i + nmb_in_interval >= len(self):
+            if i + nmb_in_interval > len(self):
                 break
         # returning
         if inplace:
-- 
2.43.0


From eb7c19c5e7423a0bb53bda5b67d584d1bb08917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:16 +0000
Subject: [PATCH 042/129] fix: reduce_temporal_resolution returned a copy when
 asked to work in place

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 0c22e40..d4a9529 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1234,7 +1234,7 @@ class TemporalFields(flds.Fields, fld.Field):
             raise TypeError("'nmb_in_interval' must be a positive integer")
 
         if nmb_in_interval == 1:
-            return self.copy()
+            return None if inplace else self.copy()
         if nmb_in_interval >= len(self):
             raise ValueError("'nmb_in_interval' is too big")
         if not isinstance(mean, bool):
-- 
2.43.0


From e7530241bd155f0a324a2acfc82c4d8255952de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:12 +0000
Subject: [PATCH 043/129] fix: Profile ignored mask=True at creation

---
 IMTreatment/core/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 98e773a..426b6fa 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -65,8 +65,9 @@ class Profile(object):
         if not isinstance(y, np.ma.MaskedArray):
             y = np.array(y, dtype=float)
         if isinstance(mask, bool):
+            mask_value = mask
             mask = np.empty(x.shape, dtype=bool)
-            mask.fill(False)
+            mask.fill(mask_value)
         if not isinstance(mask, ARRAYTYPES):
             raise TypeError("'mask' must be an array")
         if not isinstance(mask, (np.ndarray, np.ma.MaskedArray)):
-- 
2.43.0


From b70611db96208380f37a0366e5dd5af5e9df8d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:12 +0000
Subject: [PATCH 044/129] fix: setting x with a wrong length left the Profile
 inconsistent

---
 IMTreatment/core/profile.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 426b6fa..83a2f8b 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -262,13 +262,12 @@ class Profile(object):
 
     @x.setter
     def x(self, values):
-        if isinstance(values, ARRAYTYPES):
-            self.__x = np.array(values, dtype=float)
-        else:
+        if not isinstance(values, ARRAYTYPES):
             raise Exception("'x' should be an array, not {}"
                             .format(type(values)))
         if len(values) != len(self.__y):
             raise Exception("Please set 'y' before 'x'")
+        self.__x = np.array(values, dtype=float)
         if len(self.__x) > 1:
             ind_sort = np.argsort(self.__x)
             self.__x = self.__x[ind_sort]
-- 
2.43.0


From 76c17cccc25dc406385b59dfe4869adce11e1ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:12 +0000
Subject: [PATCH 045/129] fix: Profile.crop lost points at the upper bound

---
 IMTreatment/core/profile.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 83a2f8b..19e7ed0 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1431,20 +1431,14 @@ class Profile(object):
                     or all(intervx > np.max(self.x)):
                 raise ValueError("'intervx' values are out of profile")
             ind1 = 0
-            ind2 = -1
+            ind2 = np.searchsorted(new_x, intervx[1], side='right')
             for i in np.arange(len(new_x)-1, 0, -1):
                 if new_x[i] == intervx[0]:
                     ind1 = i
-                elif new_x[i] == intervx[1]:
-                    ind2 = i + 1
                 elif (new_x[i] > intervx[0] and new_x[i-1] < intervx[0]) \
                         or (new_x[i] < intervx[0] and
                             new_x[i-1] > intervx[0]):
                     ind1 = i + 1
-                elif (new_x[i] > intervx[1] and new_x[i-1] < intervx[1]) \
-                        or (new_x[i] < intervx[1] and
-                            new_x[i-1] > intervx[1]):
-                    ind2 = i
             indices = [ind1, ind2]
             new_x = new_x[indices[0]:indices[1]]
             new_y = new_y[indices[0]:indices[1]]
-- 
2.43.0


From bef60ab3cf105c4d03698246d566a6f57b762615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:12 +0000
Subject: [PATCH 046/129] fix: Profile.crop with intervx and intervy together
 failed

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 19e7ed0..cdefdb2 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1445,7 +1445,7 @@ class Profile(object):
             new_mask = new_mask[indices[0]:indices[1]]
         # treat intervy with ind=False
         if not ind and intervy is not None:
-            filt = np.logical_and(self.y > intervy[0], self.y < intervy[1])
+            filt = np.logical_and(new_y > intervy[0], new_y < intervy[1])
             new_x = new_x[filt]
             new_y = new_y[filt]
             new_mask = new_mask[filt]
-- 
2.43.0


From a5c5c48cb57f5bc7ebbef91cc6b6cc640f4caca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:12 +0000
Subject: [PATCH 047/129] fix: a quantity of another dimension could be added
 to a Profile

---
 IMTreatment/core/profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index cdefdb2..a0ec9a3 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -103,6 +103,8 @@ class Profile(object):
             name = self.name
             mask = self.mask
         elif isinstance(otherone, unum.Unum):
+            # raise an error if the units are incompatible
+            otherone + self.unit_y
             y = self.y + (otherone/self.unit_y).asNumber()
             name = self.name
             mask = self.mask
-- 
2.43.0


From 4a4e619d35b0a3eedc8e3cf60c07f786c63d913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:12 +0000
Subject: [PATCH 048/129] fix: adding Profiles with different units used the
 inverse conversion factor

---
 IMTreatment/core/profile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index a0ec9a3..0c991d9 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -116,9 +116,10 @@ class Profile(object):
                 raise ValueError("Profiles have not the same unit system")
             if not len(self.x) == len(otherone.x):
                 raise ValueError("Profiles have not the same length")
-            if not all(self.x == otherone.x):
+            fact_x = (otherone.unit_x/self.unit_x).asNumber()
+            if not np.allclose(self.x, otherone.x*fact_x, rtol=1e-10, atol=0):
                 raise ValueError("Profiles have not the same x axis")
-            y = self.y + (self.unit_y/otherone.unit_y*otherone.y).asNumber()
+            y = self.y + (otherone.unit_y/self.unit_y*otherone.y).asNumber()
             name = ""
             mask = np.logical_or(self.mask, otherone.mask)
         else:
-- 
2.43.0


From db0901d0ce4bdab21b6d0cd70d3ae7b990a5934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:12 +0000
Subject: [PATCH 049/129] fix: Profiles with different x axis could be
 multiplied

---
 IMTreatment/core/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 0c991d9..8a7a120 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -145,7 +145,8 @@ class Profile(object):
             y = self.y*new_unit_y.asNumber()
             new_unit_y = new_unit_y/new_unit_y.asNumber()
         elif isinstance(otherone, Profile):
-            if np.any(otherone.x - self.x > 1e-6*np.mean(abs(self.x))):
+            if np.any(np.abs(otherone.x - self.x) >
+                      1e-6*np.mean(abs(self.x))):
                 raise ValueError("Given profiles does'nt share the same"
                                  " x axis")
             if not otherone.unit_x == self.unit_x:
-- 
2.43.0


From 5e4e9eff6a417eec3742ca716f27f5af53c99e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:12 +0000
Subject: [PATCH 050/129] fix: dividing by a Profile changed the divisor

---
 IMTreatment/core/profile.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 8a7a120..d098d35 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -206,9 +206,10 @@ class Profile(object):
                 mask = np.logical_or(self.mask, otherone.mask)
                 tmp_unit = self.unit_y/otherone.unit_y
                 y_tmp = self.y.copy()
-                y_tmp[otherone.y == 0] = np.NaN
-                otherone.y[otherone.y == 0] = 1
-                y = y_tmp/otherone.y*tmp_unit.asNumber()
+                y_other = otherone.y.copy()
+                y_tmp[y_other == 0] = np.NaN
+                y_other[y_other == 0] = 1
+                y = y_tmp/y_other*tmp_unit.asNumber()
                 name = ""
                 unit_y = tmp_unit/tmp_unit.asNumber()
         else:
-- 
2.43.0


From e5059f48d28433c705e1a3fadb57f39ebb0f24f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:12 +0000
Subject: [PATCH 051/129] fix: Profiles with different x units could be divided

---
 IMTreatment/core/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index d098d35..cf63e19 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -199,7 +199,9 @@ class Profile(object):
             name = self.name
             unit_y = tmpunit/tmpunit.asNumber()
         elif isinstance(otherone, Profile):
-            if not np.all(self.x == otherone.x):
+            self.unit_x + otherone.unit_x
+            fact_x = (otherone.unit_x/self.unit_x).asNumber()
+            if not np.allclose(self.x, otherone.x*fact_x, rtol=1e-10, atol=0):
                 raise ValueError("Profile has to have identical x axis in "
                                  "order to divide them")
             else:
-- 
2.43.0


From c5923e06494392655118124a3d550efbc9ff9b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:12 +0000
Subject: [PATCH 052/129] fix: Profile.fill(kind='value') replaced the valid
 values

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index cf63e19..22fe524 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1590,7 +1590,7 @@ class Profile(object):
         # check fill type
         if kind == 'value':
             new_y = copy.copy(self.y)
-            new_y[filt] = fill_value
+            new_y[mask] = fill_value
         else:
             # making interpolation on existent values
             x = self.x[filt]
-- 
2.43.0


From 918dadf41e5d5c32eeea9d5dc08f74158ea1c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:12 +0000
Subject: [PATCH 053/129] fix: Profile.fill(crop=True) failed

---
 IMTreatment/core/profile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 22fe524..2181b95 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1581,7 +1581,10 @@ class Profile(object):
             return self.copy()
         # crop if asked
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            if not inplace:
+                return self.crop_masked_border().fill(kind=kind,
+                                                      fill_value=fill_value)
+            self.crop_masked_border(inplace=True)
         # get mask
         mask = self.mask
         filt = np.logical_not(mask)
-- 
2.43.0


From a16ab63b8fa2c9993fa15b2aef2ab797d80a65c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:12 +0000
Subject: [PATCH 054/129] fix: Profile.fill(inplace=True) returned a tuple

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 2181b95..e9b5d7f 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1576,7 +1576,7 @@ class Profile(object):
         """
         # check if filling really necessary
         if not np.any(self.mask) and inplace:
-            return None,
+            return None
         elif not np.any(self.mask):
             return self.copy()
         # crop if asked
-- 
2.43.0


From 2ef944c861bb4a491cddee450843a13dfa74293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:12 +0000
Subject: [PATCH 055/129] fix: get_convolution misjudged which axis are evenly
 spaced

---
 IMTreatment/core/profile.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index e9b5d7f..074ba41 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1181,14 +1181,14 @@ class Profile(object):
             raise TypeError()
         if mode not in ['full', 'same', 'valid']:
             raise ValueError()
-        if not np.all(self.x[1:] - self.x[0:-1] - (self.x[1] - self.x[0]) <
-                      self.x[-1]*1e-10):
+        dx = self.x[1] - self.x[0]
+        other_dx = other_prof.x[1] - other_prof.x[0]
+        if not np.all(np.abs(self.x[1:] - self.x[0:-1] - dx) < 1e-6*dx):
             raise Exception("Profiles should have orthogonal x axis")
-        if not np.all(other_prof.x[1:] - other_prof.x[0:-1] -
-                      other_prof.x[1] - other_prof.x[0] <
-                      1e-6*np.mean(other_prof.x)):
+        if not np.all(np.abs(other_prof.x[1:] - other_prof.x[0:-1] -
+                             other_dx) < 1e-6*other_dx):
             raise Exception("Profiles should have orthogonal x axis")
-        if not self.x[1] - self.x[0] == other_prof.x[1] - other_prof.x[0]:
+        if not np.abs(dx - other_dx) < 1e-6*dx:
             raise Exception("Profiles should have same x discretization step")
         if not self.unit_x == other_prof.unit_x:
             raise Exception("Profiles should have the same x unit")
-- 
2.43.0


From 7febfea9956b8d45ae661d94d32217ecb724d6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:42 +0000
Subject: [PATCH 056/129] fix: get_convolution failed for some steps because of
 rounding

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 074ba41..fbfdc14 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1196,7 +1196,7 @@ class Profile(object):
         # get convolution
         conv = np.convolve(self.y, other_prof.y, mode=mode)
         # store in a profile
-        conv_prof = Profile(np.arange(0, dx*len(conv), dx),
+        conv_prof = Profile(np.arange(len(conv))*dx,
                             conv, unit_x=self.unit_x,
                             unit_y=self.unit_y*other_prof.unit_y)
         # return
-- 
2.43.0


From f5ea14ee7431abea3548eef85d17e8173f726b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:06 +0000
Subject: [PATCH 057/129] fix: the unit of a product of Profiles hid a factor

---
 IMTreatment/core/profile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index fbfdc14..233053f 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -175,6 +175,8 @@ class Profile(object):
             mask = np.logical_or(self.mask[filt_self],
                                  otherone.mask[filt_other])
             unit_y = self.unit_y*otherone.unit_y
+            values = values*unit_y.asNumber()
+            unit_y = unit_y/unit_y.asNumber()
             tmp_prof = Profile(x, values, mask=mask, unit_x=self.unit_x,
                                unit_y=unit_y)
             return tmp_prof
@@ -1196,9 +1198,10 @@ class Profile(object):
         # get convolution
         conv = np.convolve(self.y, other_prof.y, mode=mode)
         # store in a profile
+        unit_y = self.unit_y*other_prof.unit_y
         conv_prof = Profile(np.arange(len(conv))*dx,
-                            conv, unit_x=self.unit_x,
-                            unit_y=self.unit_y*other_prof.unit_y)
+                            conv*unit_y.asNumber(), unit_x=self.unit_x,
+                            unit_y=unit_y/unit_y.asNumber())
         # return
         return conv_prof
 
-- 
2.43.0


From 97deb44b0c952fb49e9a60727984976c1714a761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:46 +0000
Subject: [PATCH 058/129] fix: adding Points used the inverse unit factor and
 changed the added set

---
 IMTreatment/core/points.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index e0c7ec7..dc54f84 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -101,16 +101,16 @@ class Points(object):
             if another.xy.shape == (0,):
                 new_xy = self.xy
             elif self.xy.shape == (0,):
-                xy = another.xy
-                xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
-                xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
+                xy = another.xy.copy()
+                xy[:, 0] = xy[:, 0]*(another.unit_x/self.unit_x).asNumber()
+                xy[:, 1] = xy[:, 1]*(another.unit_y/self.unit_y).asNumber()
                 new_xy = xy
             elif another.xy.shape == (0,) and self.xy.shape == (0,):
                 new_xy = np.array([[]])
             else:
-                xy = another.xy
-                xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
-                xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
+                xy = another.xy.copy()
+                xy[:, 0] = xy[:, 0]*(another.unit_x/self.unit_x).asNumber()
+                xy[:, 1] = xy[:, 1]*(another.unit_y/self.unit_y).asNumber()
                 new_xy = np.append(self.xy, xy, axis=0)
             # testing v presence
             v_presence = True
@@ -126,11 +126,11 @@ class Points(object):
                 if self.v is None and another.v is None:
                     v = np.array([])
                 elif self.v is None:
-                    v = another.v*(self.unit_v/another.unit_v).asNumber()
+                    v = another.v*(another.unit_v/self.unit_v).asNumber()
                 elif another.v is None:
                     v = self.v
                 else:
-                    v_tmp = another.v*(self.unit_v/another.unit_v).asNumber()
+                    v_tmp = another.v*(another.unit_v/self.unit_v).asNumber()
                     v = np.append(self.v, v_tmp)
                 return Points(new_xy, v,
                               unit_x=self.unit_x,
-- 
2.43.0


From f08ce05599e2609c8a21d895691deb7cd494eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:46 +0000
Subject: [PATCH 059/129] fix: Points of different lengths could compare equal

---
 IMTreatment/core/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index dc54f84..829067c 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -147,9 +147,9 @@ class Points(object):
     def __eq__(self, obj):
         if not isinstance(obj, Points):
             return False
-        if not np.all(self.xy == obj.xy):
+        if not np.array_equal(self.xy, obj.xy):
             return False
-        if not np.all(self.v == obj.v):
+        if not np.array_equal(self.v, obj.v):
             return False
         if not self.unit_x == obj.unit_x:
             return False
-- 
2.43.0


From d0fe7d3b1e0c0bc47acf9622ef9431ddf7dc43b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:46 +0000
Subject: [PATCH 060/129] fix: Points shared the coordinates with the array
 they were given as

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 829067c..871b154 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -165,7 +165,7 @@ class Points(object):
 
     @xy.setter
     def xy(self, values):
-        values = np.asarray(values, dtype=float)
+        values = np.array(values, dtype=float)
         if len(values != 0):
             if not values.ndim == 2:
                 raise ValueError("ndim of xy is {} and should be 2"
-- 
2.43.0


From 8ba54162167342c5b3b3019df1d9ed67ca592e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:46 +0000
Subject: [PATCH 061/129] fix: Points.add left as many values as points no
 more, even when refusing the point

---
 IMTreatment/core/points.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 871b154..8337c5a 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -891,10 +891,12 @@ class Points(object):
         if v is not None:
             if not isinstance(v, NUMBERTYPES):
                 raise TypeError()
-        # store new data
-        self.__xy = np.append(self.xy, [pt], axis=0)
         if v is None and self.v.shape[0] != 0:
             raise ValueError('You should specify an associated value : v')
+        if v is not None and len(self.v) != len(self.xy):
+            raise ValueError('The other points have no associated values')
+        # store new data
+        self.__xy = np.append(self.xy, [pt], axis=0)
         if v is not None:
             self.__v = np.append(self.v, v)
 
-- 
2.43.0


From f0fcc5326702dcaae1653af786546ef94af00ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:46 +0000
Subject: [PATCH 062/129] fix: removing points lost the values of the others

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 8337c5a..06121dd 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -920,7 +920,7 @@ class Points(object):
             raise TypeError("'ind' must be an integer or an array of integer")
         tmp_v = self.v.copy()
         self.xy = np.delete(self.xy, ind, axis=0)
-        if len(self.v) == len(self.xy) + 1:
+        if len(tmp_v) != 0:
             self.v = np.delete(tmp_v, ind, axis=0)
 
     def change_unit(self, axe, new_unit):
-- 
2.43.0


From 1a383c92192df85d1c9b5e3e343f445dc3de73a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:46 +0000
Subject: [PATCH 063/129] fix: scaling Points or changing their unit failed for
 integer values

---
 IMTreatment/core/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 06121dd..6214da9 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -958,7 +958,7 @@ class Points(object):
             old_unit = self.unit_v
             new_unit = old_unit.asUnit(new_unit)
             fact = new_unit.asNumber()
-            self.v *= fact
+            self.v = self.v*fact
             self.unit_v = new_unit/fact
         else:
             raise ValueError()
@@ -1115,7 +1115,7 @@ class Points(object):
         if scalex != 1. or scaley != 1.:
             tmp_pt.xy *= np.array([scalex, scaley])
         if scalev != 1.:
-            tmp_pt.v *= scalev
+            tmp_pt.v = tmp_pt.v*scalev
         # returning
         if not inplace:
             return tmp_pt
-- 
2.43.0


From a66c38deda44e7c0800924be881f94be1a510233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:46 +0000
Subject: [PATCH 064/129] fix: Points.cut lost the values

---
 IMTreatment/core/points.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 6214da9..c5357cd 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1053,7 +1053,7 @@ class Points(object):
             Cutted version of the point cloud.
         """
         tmp_pts = self.copy()
-        mask = np.ones(len(self.xy))
+        mask = np.ones(len(self.xy), dtype=bool)
         if intervx is not None:
             out_zone = np.logical_and(self.xy[:, 0] > intervx[0],
                                       self.xy[:, 0] < intervx[1])
@@ -1062,9 +1062,7 @@ class Points(object):
             out_zone = np.logical_and(self.xy[:, 1] > intervy[0],
                                       self.xy[:, 1] < intervy[1])
             mask = np.logical_and(mask, out_zone)
-        tmp_pts.xy = tmp_pts.xy[~mask, :]
-        if len(tmp_pts.v) != 0:
-            tmp_pts.v = tmp_pts.v[~mask]
+        tmp_pts.remove(np.where(mask)[0].tolist())
         return tmp_pts
 
     def scale(self, scalex=1., scaley=1., scalev=1., inplace=False):
-- 
2.43.0


From 0dd2e6ed1b61a5c42fac73d2e4f153a17a0ae168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:46 +0000
Subject: [PATCH 065/129] fix: Points.reverse did not swap the units

---
 IMTreatment/core/points.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index c5357cd..651ed47 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1188,6 +1188,7 @@ class Points(object):
         xy_tmp[:, 0] = tmp_pt.xy[:, 1]
         xy_tmp[:, 1] = tmp_pt.xy[:, 0]
         tmp_pt.xy = xy_tmp
+        tmp_pt.unit_x, tmp_pt.unit_y = self.unit_y, self.unit_x
         return tmp_pt
 
     def decompose(self):
-- 
2.43.0


From 1d71c0729f1573d105b1fd1ae17292a539409dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:46 +0000
Subject: [PATCH 066/129] fix: decomposing a single point returned the object
 itself

---
 IMTreatment/core/orientedpoints.py | 2 +-
 IMTreatment/core/points.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index ad292db..c154ada 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -323,7 +323,7 @@ class OrientedPoints(pts.Points):
         object.
         """
         if len(self) == 1:
-            return [self]
+            return [self.copy()]
         if len(self) != len(self.v):
             raise Exception()
         pts_tupl = []
diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 651ed47..5a6b8cd 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1196,7 +1196,7 @@ class Points(object):
         return a tuple of Points object, with only one point per object.
         """
         if len(self) == 1:
-            return [self]
+            return [self.copy()]
         if len(self) != len(self.v):
             raise Exception()
         pts_tupl = []
-- 
2.43.0


From 2c6d18e1286bdd2d1374039091159cdf8561462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:46 +0000
Subject: [PATCH 067/129] fix: Points.remove_nans failed for points without
 values

---
 IMTreatment/core/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 5a6b8cd..c4722ac 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1296,7 +1296,8 @@ class Points(object):
         # get indices to remove
         inds = np.logical_or(np.isnan(tmp_pts.xy[:, 0]),
                              np.isnan(tmp_pts.xy[:, 1]))
-        inds = np.logical_or(inds, np.isnan(tmp_pts.v))
+        if len(tmp_pts.v) != 0:
+            inds = np.logical_or(inds, np.isnan(tmp_pts.v))
         # remove
         for ind in np.where(inds)[0][::-1]:
             tmp_pts.remove(ind)
-- 
2.43.0


From 0cebe62327c6bbdb07c17c1049a14e92b7bdaa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:24 +0000
Subject: [PATCH 068/129] fix: get_velocity versus a coordinate gave the unit
 of the time to the coordinate

---
 IMTreatment/core/points.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index c4722ac..b902156 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -701,15 +701,17 @@ class Points(object):
             x_prof = y[:-1] + dy/2.
         # returning profiles
         from .profile import Profile
+        unit_prof = {'time': self.unit_v, 'x': self.unit_x,
+                     'y': self.unit_y}[xaxis]
         unit_Vx = self.unit_x/self.unit_v
         Vx *= unit_Vx.asNumber()
         unit_Vx /= unit_Vx.asNumber()
-        prof_x = Profile(x_prof, Vx, mask=False, unit_x=self.unit_v,
+        prof_x = Profile(x_prof, Vx, mask=False, unit_x=unit_prof,
                          unit_y=unit_Vx)
         unit_Vy = self.unit_y/self.unit_v
         Vy *= unit_Vy.asNumber()
         unit_Vy /= unit_Vy.asNumber()
-        prof_y = Profile(x_prof, Vy, mask=False, unit_x=self.unit_v,
+        prof_y = Profile(x_prof, Vy, mask=False, unit_x=unit_prof,
                          unit_y=unit_Vy)
         return prof_x, prof_y
 
-- 
2.43.0


From b5249b979241d5a764a8c9901c683e8a163ec878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:24 +0000
Subject: [PATCH 069/129] fix: Points.get_evolution_on_sf failed for any points

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index b902156..8393038 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -735,8 +735,8 @@ class Points(object):
         from .scalarfield import ScalarField
         if not isinstance(SF, ScalarField):
             raise TypeError()
+        from .profile import Profile
         if len(self.xy) == 0:
-            from .profile import Profile
             return Profile()
         if axe_x is None:
             if len(self.v) == len(self.xy):
-- 
2.43.0


From 63a61c2fb7f25284e6f88e3e19a46c1d238b070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:24 +0000
Subject: [PATCH 070/129] fix: iterating on OrientedPoints repeated the first
 point

---
 IMTreatment/core/orientedpoints.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index c154ada..677b100 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -77,9 +77,7 @@ class OrientedPoints(pts.Points):
         self.orientations = orientations
 
     def __iter__(self):
-        for i in np.arange(len(self.xy)):
-            pts_iter = pts.Points.__iter__(self)
-            pts_value = next(pts_iter)
+        for i, pts_value in enumerate(pts.Points.__iter__(self)):
             if type(pts_value) is tuple:
                 yield pts_value + (self.orientations[i],)
             else:
-- 
2.43.0


From 2ae7e4f1877560c48d767ca359f708a875985fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:24 +0000
Subject: [PATCH 071/129] fix: sorting OrientedPoints left the orientations in
 the old order

---
 IMTreatment/core/orientedpoints.py | 10 ++++++++++
 IMTreatment/core/points.py         | 25 +++++++++++++++----------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 677b100..b1b9047 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -315,6 +315,16 @@ class OrientedPoints(pts.Points):
         if not inplace:
             return tmp_pts
 
+    def sort(self, ref='x', inplace=False):
+        tmp_pts = self if inplace else self.copy()
+        order = self._get_order(ref)
+        super(OrientedPoints, tmp_pts).sort(ref=ref, inplace=True)
+        tmp_pts.orientations = tmp_pts.orientations[order]
+        if not inplace:
+            return tmp_pts
+
+    sort.__doc__ = pts.Points.sort.__doc__
+
     def decompose(self):
         """
         Return a tuple of OrientedPoints object, with only one point per
diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 8393038..de0d7c2 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1232,16 +1232,7 @@ class Points(object):
         if not isinstance(inplace, bool):
             raise TypeError()
         # get order
-        if ref == 'x':
-            order = np.argsort(self.xy[:, 0])
-        elif ref == 'y':
-            order = np.argsort(self.xy[:, 1])
-        elif ref == 'v':
-            if len(self.v) == 0:
-                raise ValueError()
-            order = np.argsort(self.v)
-        else:
-            order = ref
+        order = self._get_order(ref)
         # reordering
         if inplace:
             tmp_pt = self
@@ -1254,6 +1245,20 @@ class Points(object):
         if not inplace:
             return tmp_pt
 
+    def _get_order(self, ref):
+        """
+        Return the indices sorting the points (see 'sort').
+        """
+        if not isinstance(ref, STRINGTYPES):
+            return np.array(ref, dtype=int)
+        if ref == 'x':
+            return np.argsort(self.xy[:, 0])
+        elif ref == 'y':
+            return np.argsort(self.xy[:, 1])
+        if len(self.v) == 0:
+            raise ValueError()
+        return np.argsort(self.v)
+
     def order_on_line(self, inplace=False):
         """
         Re-order the set of points to try to create a line.
-- 
2.43.0


From 73430bb94cab81c15202aaa10369f8baafb4f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:24 +0000
Subject: [PATCH 072/129] fix: rotating or reversing OrientedPoints left the
 orientations as they were

---
 IMTreatment/core/orientedpoints.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index b1b9047..8ed2563 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -325,6 +325,26 @@ class OrientedPoints(pts.Points):
 
     sort.__doc__ = pts.Points.sort.__doc__
 
+    def rotate(self, angle, inplace=False):
+        tmp_pts = super(OrientedPoints, self).rotate(angle, inplace=inplace)
+        ori = np.array(tmp_pts.orientations, dtype=float)
+        if len(ori) != 0:
+            x, y = ori[..., 0].copy(), ori[..., 1].copy()
+            ori[..., 0] = x*np.cos(angle) - y*np.sin(angle)
+            ori[..., 1] = y*np.cos(angle) + x*np.sin(angle)
+            tmp_pts.orientations = ori
+        return tmp_pts
+
+    rotate.__doc__ = pts.Points.rotate.__doc__
+
+    def reverse(self):
+        tmp_pts = super(OrientedPoints, self).reverse()
+        if len(tmp_pts.orientations) != 0:
+            tmp_pts.orientations = tmp_pts.orientations[..., ::-1]
+        return tmp_pts
+
+    reverse.__doc__ = pts.Points.reverse.__doc__
+
     def decompose(self):
         """
         Return a tuple of OrientedPoints object, with only one point per
-- 
2.43.0


From 7099817bd277aab95bffc16ce893848f063f6ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:24 +0000
Subject: [PATCH 073/129] fix: TemporalPoints.scale failed unless all the
 factors were given

---
 IMTreatment/core/points.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index de0d7c2..695e730 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1080,6 +1080,9 @@ class Points(object):
             returned.
         """
         # check params
+        scalex = 1. if scalex is None else scalex
+        scaley = 1. if scaley is None else scaley
+        scalev = 1. if scalev is None else scalev
         if not isinstance(scalex, NUMBERTYPES + (unum.Unum, )):
             raise TypeError()
         if not isinstance(scaley, NUMBERTYPES + (unum.Unum, )):
-- 
2.43.0


From 8d9d15f2c2c32414a582162e24a597f587936927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:05 +0000
Subject: [PATCH 074/129] fix: TemporalPoints.change_unit left the units of the
 set, and failed for 'values'

---
 IMTreatment/core/temporalpoints.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 125cbb5..edcb19f 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -174,7 +174,11 @@ class TemporalPoints(object):
             raise TypeError()
         if axe in ['x', 'y', 'values']:
             for pt in self.point_sets:
-                pt.change_unit(axe, new_unit)
+                pt.change_unit('v' if axe == 'values' else axe, new_unit)
+            if axe == 'x':
+                self.unit_x = new_unit
+            elif axe == 'y':
+                self.unit_y = new_unit
         elif axe == 'time':
             old_unit = self.unit_times
             new_unit = old_unit.asUnit(new_unit)
-- 
2.43.0


From b8b030314c7049dadf05f962de7fc2c42ebe72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:05 +0000
Subject: [PATCH 075/129] fix: TemporalPoints.add_pts converted the time by the
 inverse factor and stored the points themselves

---
 IMTreatment/core/temporalpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index edcb19f..4c91bf1 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -222,10 +222,10 @@ class TemporalPoints(object):
         # if not
         else:
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            time = time*unit_times.asNumber(self.unit_times)
             self.__times = np.append(self.__times, time)
         # use default constructor
-        self.point_sets.append(pt)
+        self.point_sets.append(pt.copy())
         # sorting the field with time
         self.__sort_field_by_time()
 
-- 
2.43.0


From 2871b59f4dc8f75fdaee534f12d1a8ba881794da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:05 +0000
Subject: [PATCH 076/129] fix: TemporalPoints.remove_pts removed the wrong sets
 and made later additions fail

---
 IMTreatment/core/temporalpoints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 4c91bf1..1d2bb86 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -240,9 +240,9 @@ class TemporalPoints(object):
         """
         if isinstance(indice, INTEGERTYPES):
             indice = [indice]
-        for i in indice:
-            self.__times = np.delete(self.times, i)
-            self.point_sets = np.delete(self.point_sets, i)
+        inds = np.delete(np.arange(len(self.point_sets)), indice)
+        self.__times = np.delete(self.times, indice)
+        self.point_sets = [self.point_sets[i] for i in inds]
 
     def crop(self, intervx=None, intervy=None, intervv=None, intervt=None,
              full_output=False, ind=False, inplace=False):
-- 
2.43.0


From 1c96d59e55ab43ed852ca1f7ad941270234d0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:05 +0000
Subject: [PATCH 077/129] fix: TemporalPoints.crop cropped the original in
 space instead of the copy

---
 IMTreatment/core/temporalpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 1d2bb86..b8fe342 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -268,7 +268,7 @@ class TemporalPoints(object):
         if intervt is not None:
             if not isinstance(intervt, ARRAYTYPES):
                 raise TypeError()
-            intervt = np.array(intervt, dtype=float)
+            intervt = np.array(intervt, dtype=int if ind else float)
             if intervt.shape != (2, ):
                 raise ValueError()
         # get wanted times
@@ -297,7 +297,7 @@ class TemporalPoints(object):
             croppts.point_sets = croppts.point_sets[intervt[0]:intervt[1] + 1]
             croppts.times = croppts.times[intervt[0]:intervt[1] + 1]
         # spatial
-        for pt in self.point_sets:
+        for pt in croppts.point_sets:
             pt.crop(intervx=intervx, intervy=intervy, intervv=intervv,
                     inplace=True)
         # returning
-- 
2.43.0


From 2cf88935eab84f4d83a44de29e74b72bcf989050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:06 +0000
Subject: [PATCH 078/129] fix: setting the times of TemporalPoints left the
 sets unsorted and tied to the given array

---
 IMTreatment/core/temporalpoints.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index b8fe342..d2b6eae 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -82,7 +82,8 @@ class TemporalPoints(object):
             raise ValueError("New number of time ({}) do not corespond to "
                              "the number of fields ({})"
                              .format(len(values), len(self.point_sets)))
-        self.__times = values
+        self.__times = np.array(values, dtype=float)
+        self.__sort_field_by_time()
 
     @times.deleter
     def times(self):
@@ -343,7 +344,7 @@ class TemporalPoints(object):
         if len(self.point_sets) in [0, 1]:
             return None
         ind_sort = np.argsort(self.times)
-        self.times = self.times[ind_sort]
+        self.__times = self.times[ind_sort]
         self.point_sets = [self.point_sets[i] for i in ind_sort]
 
     def display(self, sharecb=True, buffer_size=100, cpkw={}):
-- 
2.43.0


From 6a48d627e64ea711eca95c143de39336c550bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:53 +0000
Subject: [PATCH 079/129] fix: TemporalPoints.scale left the units of the set

---
 IMTreatment/core/temporalpoints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index d2b6eae..5dbf31f 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -137,6 +137,9 @@ class TemporalPoints(object):
                                        scaley=scaley,
                                        scalev=scalev,
                                        inplace=True)
+        if len(tmp_ps.point_sets) != 0:
+            tmp_ps.unit_x = tmp_ps.point_sets[0].unit_x
+            tmp_ps.unit_y = tmp_ps.point_sets[0].unit_y
         # scale the time
         if scalet is None:
             pass
-- 
2.43.0


From f524ec85aae7992fa55780e981baeaf475e0bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:00 +0000
Subject: [PATCH 080/129] fix: Points.cut failed when no point lies in the
 removed area

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 695e730..23c964b 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -917,7 +917,7 @@ class Points(object):
             if not np.all([isinstance(val, int) for val in ind]):
                 raise TypeError("'ind' must be an integer or an array of"
                                 " integer")
-            ind = np.array(ind)
+            ind = np.array(ind, dtype=int)
         else:
             raise TypeError("'ind' must be an integer or an array of integer")
         tmp_v = self.v.copy()
-- 
2.43.0


From 5827a60b426931cef38b4d2c4fbcd34adc2c11e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:54 +0000
Subject: [PATCH 081/129] fix: Points.smooth truncated integer values

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 23c964b..4674e04 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1397,7 +1397,7 @@ class Points(object):
         y = self.xy[:, 1]
         x = self.xy[:, 0]
         if len(self.v) != 0:
-            v = self.v
+            v = np.array(self.v, dtype=float)
         # smoothing
         if tos == "uniform":
             x = ndimage.uniform_filter(x, size, **kw)
-- 
2.43.0


From f6b0ee10401f9feb82b73dc43aad9277de4af4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:11 +0000
Subject: [PATCH 082/129] fix: ascii files holding a single row could not be
 imported

---
 IMTreatment/file_operation/file_operation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 7c55a1e..5b8f6c7 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1596,7 +1596,7 @@ def import_profile_from_ascii(filepath, x_col=1, y_col=2,
         if 'names' in kwargs:
             kwargs.pop('names')
         # extract data from file
-        data = np.genfromtxt(filepath, **kwargs)
+        data = np.atleast_2d(np.genfromtxt(filepath, **kwargs))
         # get axes
         x = data[:, x_col-1]
         y = data[:, y_col-1]
@@ -1639,7 +1639,7 @@ def import_pts_from_ascii(filepath, x_col=1, y_col=2, v_col=None,
         if 'names' in kwargs:
             kwargs.pop('names')
         # extract data from file
-        data = np.genfromtxt(filepath, **kwargs)
+        data = np.atleast_2d(np.genfromtxt(filepath, **kwargs))
         # get axes
         x = data[:, x_col-1]
         y = data[:, y_col-1]
@@ -1685,7 +1685,7 @@ def import_sf_from_ascii(filepath, x_col=1, y_col=2, vx_col=3,
     if 'names' in kwargs:
         kwargs.pop('names')
     # extract data from file
-    data = np.genfromtxt(filepath, **kwargs)
+    data = np.atleast_2d(np.genfromtxt(filepath, **kwargs))
     # get axes
     x = data[:, x_col-1]
     x_org = np.sort(np.unique(x))
@@ -1774,7 +1774,7 @@ def import_vf_from_ascii(filepath, x_col=1, y_col=2, vx_col=3,
     if 'names' in kwargs:
         kwargs.pop('names')
     # extract data from file
-    data = np.genfromtxt(filepath, **kwargs)
+    data = np.atleast_2d(np.genfromtxt(filepath, **kwargs))
     # get axes
     x = data[:, x_col-1]
     x_org = np.unique(x)
-- 
2.43.0


From f80cd348955f97c2a4a088df1b5e7784c44a06e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:11 +0000
Subject: [PATCH 083/129] fix: import_sf_from_ascii misplaced or refused values
 depending on the order of the rows

---
 IMTreatment/file_operation/file_operation.py | 36 +++-----------------
 1 file changed, 4 insertions(+), 32 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 5b8f6c7..a897a61 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1693,38 +1693,10 @@ def import_sf_from_ascii(filepath, x_col=1, y_col=2, vx_col=3,
     y_org = np.sort(np.unique(y))
     vx = data[:, vx_col-1]
 
-    # check if structured or not
-    X1 = x.reshape(len(x_org), len(y_org))
-    X2 = x.reshape(len(y_org), len(x_org))
-    if np.allclose(np.mean(X1, axis=1), x_org):
-        vx_org = vx.reshape(len(x_org), len(y_org))
-        mask = np.isnan(vx_org)
-    elif np.allclose(np.mean(X2, axis=0), x_org):
-        vx_org = vx.reshape(len(y_org), len(x_org)).transpose()
-        vx_org = np.fliplr(vx_org)
-        mask = np.isnan(vx_org)
-    else:
-        # Masking all the initial fields (to handle missing values)
-        vx_org = np.zeros((y_org.shape[0], x_org.shape[0]))
-        vx_org_mask = np.ones(vx_org.shape)
-        vx_org = np.ma.masked_array(vx_org, vx_org_mask)
-        #loop on all 'v' values
-        x_ind = 0
-        y_ind = 0
-        for i in np.arange(vx.shape[0]):
-            x_tmp = x[i]
-            y_tmp = y[i]
-            vx_tmp = vx[i]
-            #find x index
-            if x_org[x_ind] != x_tmp:
-                x_ind = np.where(x_tmp == x_org)[0][0]
-            #find y index
-            if y_org[y_ind] != y_tmp:
-                y_ind = np.where(y_tmp == y_org)[0][0]
-            #put the value at its place
-            vx_org[y_ind, x_ind] = vx_tmp
-        # Treating 'nan' values
-        mask = np.logical_or(vx_org.mask, np.isnan(vx_org.data))
+    # put each value at its place, missing and 'nan' values are masked
+    vx_org = np.full((len(x_org), len(y_org)), np.nan)
+    vx_org[np.searchsorted(x_org, x), np.searchsorted(y_org, y)] = vx
+    mask = np.isnan(vx_org)
 
     #store field in attributes
     tmpsf = ScalarField()
-- 
2.43.0


From 59f7367808844df8e76850b7c68126d2b662f2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:11 +0000
Subject: [PATCH 084/129] fix: export_to_picture could not create a new file

---
 IMTreatment/file_operation/file_operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index a897a61..6996db7 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1485,7 +1485,7 @@ def export_to_picture(SF, filepath):
     filepath : string
         Path to the picture file.
     """
-    filepath = check_path(filepath)
+    filepath = check_path(filepath, newfile=True)
     values = SF.values[:, ::-1].transpose()
     imageio.imwrite(filepath, values)
 
-- 
2.43.0


From c11f55f896e37770442c74e028e4d9176592988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:43 +0000
Subject: [PATCH 085/129] fix: export_to_pictures wrote lists of fields
 transposed

---
 IMTreatment/file_operation/file_operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 6996db7..894e489 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1508,7 +1508,7 @@ def export_to_pictures(SFs, filepath):
     values = []
     if isinstance(SFs, ARRAYTYPES):
         for i in np.arange(len(SFs)):
-            values.append(SFs[i].values)
+            values.append(SFs[i].values[:, ::-1].transpose())
     elif isinstance(SFs, (SpatialScalarFields, TemporalScalarFields)):
         for i in np.arange(len(SFs.fields)):
             values.append(SFs.fields[i].values[:, ::-1].transpose())
-- 
2.43.0


From 044d7e83e4c26aaf0c25eb4d35cae4060971d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:43 +0000
Subject: [PATCH 086/129] fix: import_vfs_from_ascii always failed

---
 IMTreatment/file_operation/file_operation.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 894e489..67cd60f 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1840,13 +1840,14 @@ def import_vfs_from_ascii(filepath, kind='TVF', incr=1, interval=None,
             raise ValueError("'interval' must be a 2x1 array")
         if interval[0] > interval[1]:
             interval = [interval[1], interval[0]]
-    filepath = check_path(filepath)
-    paths = glob.glob(filepath)
+    paths = sorted(glob(filepath))
+    if len(paths) == 0:
+        raise FileNotFoundError("No file matching '{}'".format(filepath))
     if interval is None:
         interval = [0, len(paths)-1]
-    if interval[0] < 0 or interval[1] > len(paths):
+    if interval[0] < 0 or interval[1] > len(paths) - 1:
         raise ValueError("'interval' is out of bounds")
-    if times == []:
+    if len(times) == 0:
         times = np.arange(len(paths))
     if len(paths) != len(times):
         raise ValueError("Not enough values in 'times'")
@@ -1862,11 +1863,12 @@ def import_vfs_from_ascii(filepath, kind='TVF', incr=1, interval=None,
         if len(path) != ref_path_len:
             raise Warning("You should check your files names,"
                           "i may have taken them in the wrong order.")
-        tmp_vf = VectorField()
-        tmp_vf.import_from_ascii(path, x_col, y_col, vx_col, vy_col,
-                                 unit_x, unit_y, unit_values, times[i],
-                                 unit_time, **kwargs)
-        fields.add_field(tmp_vf)
+        tmp_vf = import_vf_from_ascii(path, x_col, y_col, vx_col, vy_col,
+                                      unit_x, unit_y, unit_values, **kwargs)
+        if kind == 'TVF':
+            fields.add_field(tmp_vf, times[i], unit_time)
+        else:
+            fields.add_field(tmp_vf)
     return fields
 
 
-- 
2.43.0


From 0b3b818f1b7515a53b4c003264b5fa916730b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:43 +0000
Subject: [PATCH 087/129] fix: imts_to_imt put the fields in an arbitrary order

---
 IMTreatment/file_operation/file_operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 67cd60f..ae86685 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -385,7 +385,7 @@ def imts_to_imt(imts_path, imt_path, kind):
     if not isinstance(kind, STRINGTYPES):
         raise TypeError()
     # getting paths
-    paths = glob(imts_path + "/*")
+    paths = sorted(glob(imts_path + "/*"))
     # getting data type
     if kind == 'TSF':
         imts_type = 'SF'
-- 
2.43.0


From 793d369a377575d05dc3cf9a1cf0ad7d02be2340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:43 +0000
Subject: [PATCH 088/129] fix: points with integer values could not be exported
 to matlab

---
 IMTreatment/file_operation/file_operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index ae86685..1a43bc5 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -161,7 +161,7 @@ def find_file_in_path(regs, dirpath, ask=False):
 
 
 def matlab_parser(obj, name):
-    classic_types = (int, float, str, bool)
+    classic_types = (int, float, str, bool, np.integer, np.bool_)
     array_types = (list, float)
     if obj is None:
         return {name: "None"}
-- 
2.43.0


From 24dcd24249e1f4c841af03484fa5feeb0334df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:43 +0000
Subject: [PATCH 089/129] fix: import_from_matlab failed on sizes of one and on
 the values of points

---
 IMTreatment/file_operation/file_operation.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 1a43bc5..7f9d1d9 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -504,10 +504,10 @@ def import_from_matlab(filepath, obj, show_struct=False, **kwargs):
     for key, entry in kwargs.items():
         if entry in keys:
             tdata = data[entry]
-            while not isinstance(tdata, str) and len(tdata) == 1:
+            while (not isinstance(tdata, str) and np.ndim(tdata) > 0
+                   and len(tdata) == 1):
                 tdata = tdata[0]
-            print(tdata)
-            if key in ['unit_x', 'unit_y', 'unit_values']:
+            if key in ['unit_x', 'unit_y', 'unit_values', 'unit_v']:
                 if isinstance(tdata, str):
                     build_dic[key] = tdata
                 else:
@@ -523,6 +523,19 @@ def import_from_matlab(filepath, obj, show_struct=False, **kwargs):
                 build_dic[key] = build_dic[key][0]
         except TypeError:
             pass
+    # Restore the dimensions of length one
+    for key in ['axe_x', 'axe_y', 'x', 'y', 'v']:
+        if key in build_dic:
+            build_dic[key] = np.ravel(build_dic[key])
+    if 'xy' in build_dic:
+        build_dic['xy'] = np.reshape(build_dic['xy'], (-1, 2))
+    if obj == 'Profile' and 'mask' in build_dic:
+        build_dic['mask'] = np.ravel(build_dic['mask'])
+    if obj in ['ScalarField', 'VectorField']:
+        shape = (len(build_dic['axe_x']), len(build_dic['axe_y']))
+        for key in ['values', 'comp_x', 'comp_y', 'mask']:
+            if np.ndim(build_dic.get(key, [[]])) < 2:
+                build_dic[key] = np.reshape(build_dic[key], shape)
     # Fill the object
     if obj in ['ScalarField', 'VectorField']:
         ress = res()
-- 
2.43.0


From fb6baa6e72616141611ff96e08ad5992c1f7cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:17 +0000
Subject: [PATCH 090/129] fix: DaVis imports applied the scale twice when only
 the offset is not an integer

---
 IMTreatment/file_operation/file_operation.py | 22 +++++++++-----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 7f9d1d9..f99dcba 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -815,11 +815,11 @@ def import_from_IM7(filename, infos=False):
     scale_val = scale_i[0].split(' ')
     unit_values = scale_i[1]
     try:
-        values *= int(scale_val[0])
-        values += int(scale_val[1])
+        scale, offset = int(scale_val[0]), int(scale_val[1])
     except ValueError:
-        values *= float(scale_val[0])
-        values += float(scale_val[1])
+        scale, offset = float(scale_val[0]), float(scale_val[1])
+    values *= scale
+    values += offset
     # X
     scale_x = atts['_SCALE_X']
     scale_x = scale_x.split("\n")
@@ -992,15 +992,13 @@ def import_from_VC7(filename, infos=False, add_fields=False):
     unit_values = scale_i[1]
     scale_val = scale_i[0].split(' ')
     try:
-        Vx *= int(scale_val[0])
-        Vx += int(scale_val[1])
-        Vy *= int(scale_val[0])
-        Vy += int(scale_val[1])
+        scale, offset = int(scale_val[0]), int(scale_val[1])
     except ValueError:
-        Vx *= float(scale_val[0])
-        Vx += float(scale_val[1])
-        Vy *= float(scale_val[0])
-        Vy += float(scale_val[1])
+        scale, offset = float(scale_val[0]), float(scale_val[1])
+    Vx *= scale
+    Vx += offset
+    Vy *= scale
+    Vy += offset
     # Get and apply scale on X
     scale_x = atts['_SCALE_X']
     scale_x = scale_x.split("\n")
-- 
2.43.0


From 1a2b16914797bc1489bb2369b0e04a566d5f3a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:12 +0000
Subject: [PATCH 091/129] fix: export_to_ascii wrote masked vectors as valid
 ones

---
 IMTreatment/file_operation/file_operation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index f99dcba..ed07c7c 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1900,10 +1900,12 @@ def export_to_ascii(obj, filepath):
                          obj.unit_values.strUnit())
         f.write(header)
         # write data
+        comp_x = np.where(obj.mask, np.nan, obj.comp_x)
+        comp_y = np.where(obj.mask, np.nan, obj.comp_y)
         for i, x in enumerate(obj.axe_x):
             for j, y in enumerate(obj.axe_y):
-                f.write("{}\t{}\t{}\t{}\n".format(x, y, obj.comp_x[i, j],
-                                                  obj.comp_y[i, j]))
+                f.write("{}\t{}\t{}\t{}\n".format(x, y, comp_x[i, j],
+                                                  comp_y[i, j]))
         f.close()
     elif isinstance(obj, ScalarField):
         # open file
-- 
2.43.0


From c22ebeda8f26206923c8ca8921cab608d232c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 092/129] fix: the Q criterion was not 1/2*(R**2 - S**2)

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 726c37d..1c47d84 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1104,7 +1104,7 @@ def get_q_criterion(vectorfield, mask=None, raw=False):
     # calcul de Qcrit
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
-    qcrit = .5*(norm_rot2) - norm_shear2
+    qcrit = .5*(norm_rot2 - norm_shear2)
     unit_values = (vectorfield.unit_values/vectorfield.unit_x)**2
     scale = unit_values.asNumber()
     qcrit *= scale
@@ -1204,7 +1204,7 @@ def get_delta_criterion(vectorfield, mask=None, raw=False):
     # calcul de Q
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
-    Q = .5*(norm_rot2) - norm_shear2
+    Q = .5*(norm_rot2 - norm_shear2)
     # calcul de R
     R = np.zeros(Exx.shape)
     for i in np.arange(Exx.shape[0]):
-- 
2.43.0


From 131f4cb1135b7e32b7e543ec216bdc836db8a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 093/129] fix: Q and Nk criterions gave values where the
 gradients are masked

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 1c47d84..aa65be3 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1101,6 +1101,7 @@ def get_q_criterion(vectorfield, mask=None, raw=False):
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
     # calcul des gradients
     Exx, Exy, Eyx, Eyy = get_gradients(vectorfield, raw=True)
+    mask = np.logical_or(mask, Exx.mask)
     # calcul de Qcrit
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
@@ -1153,6 +1154,7 @@ def get_Nk_criterion(vectorfield, mask=None, raw=False):
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
     # calcul des gradients
     Exx, Exy, Eyx, Eyy = get_gradients(vectorfield, raw=True)
+    mask = np.logical_or(mask, Exx.mask)
     # calcul de Nk
     norm_rot = 1./2.**.5*np.abs(Exy - Eyx)
     norm_shear = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)**.5
-- 
2.43.0


From a02a32552f0115978ce233124e4de31fbc343147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 094/129] fix: delta criterion and swirling strength failed on
 masked fields

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index aa65be3..10d3084 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -989,6 +989,7 @@ def get_swirling_strength(vf, raw=False):
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
     mask = tmp_vf.mask
     du_dx, du_dy, dv_dx, dv_dy = get_gradients(vf, raw=True)
+    mask = np.logical_or(mask, du_dx.mask)
     # swirling stregnth matrix
     swst = np.zeros(tmp_vf.shape)
     # loop on  points
@@ -1208,9 +1209,12 @@ def get_delta_criterion(vectorfield, mask=None, raw=False):
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
     Q = .5*(norm_rot2 - norm_shear2)
     # calcul de R
+    mask = np.logical_or(mask, Exx.mask)
     R = np.zeros(Exx.shape)
     for i in np.arange(Exx.shape[0]):
         for j in np.arange(Exx.shape[1]):
+            if mask[i, j]:
+                continue
             Jac = [[Exx[i, j], Exy[i, j]], [Eyx[i, j], Eyy[i, j]]]
             eigval, eigvect = np.linalg.eig(Jac)
             if np.all(np.imag(eigval) == 0):
-- 
2.43.0


From f595ec80ea7dec8ccecdb6d88c884389bfa7317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 095/129] fix: get_lambda2(raw=True) returned the value of the
 last point only

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 10d3084..6c61fdc 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1289,7 +1289,7 @@ def get_lambda2(vectorfield, mask=None, raw=False):
             lambda2[i, j] = l2
     # returning
     if raw:
-        return np.ma.masked_array(l2, mask)
+        return np.ma.masked_array(lambda2, mask)
     else:
         lambd_sf = ScalarField()
         axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
-- 
2.43.0


From 314903be204895b6c5c6cea71338ff38080a5db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 096/129] fix: kappa2 used the central velocity instead of the
 local mean velocity

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 6c61fdc..4aade5c 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -491,8 +491,8 @@ def get_kappa(vectorfield, radius=None, ind=False, kind='kappa1', mask=None,
         if kind == 'kappa2':
             nmbpts = len(indsaround)
             for indaround in indsaround:
-                v_mean[0] += Vx[ind_x, ind_y]
-                v_mean[1] += Vy[ind_x, ind_y]
+                v_mean[0] += Vx[indaround[0], indaround[1]]
+                v_mean[1] += Vy[indaround[0], indaround[1]]
             v_mean[0] /= nmbpts
             v_mean[1] /= nmbpts
         # Loop on neighbouring points
-- 
2.43.0


From 9b6c63adebe6e9e0ea8bf91fd0ed0f93dc5900b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 097/129] fix: local angle deviation subtracted the x component
 from the y one

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 4aade5c..64ac712 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -124,7 +124,7 @@ def get_angle_deviation(vectorfield, radius=None, ind=False, mask=None,
             tmp_Vx = vectorfield.comp_x[indsaround[:, 0], indsaround[:, 1]]
             tmp_Vy = vectorfield.comp_y[indsaround[:, 0], indsaround[:, 1]]
             tmp_Vx -= vectorfield.comp_x[ind_x, ind_y]
-            tmp_Vy -= vectorfield.comp_x[ind_x, ind_y]
+            tmp_Vy -= vectorfield.comp_y[ind_x, ind_y]
             angles = _get_angles(tmp_Vx, tmp_Vy)
         # getting neightbour angles repartition
         angles = np.sort(angles)
-- 
2.43.0


From 75c9ca2548d17e3a2110ec232fd44e1198edd227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 098/129] fix: get_iota ignored the given mask

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 64ac712..7a6d55a 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -591,7 +591,7 @@ def get_iota(vectorfield, mask=None, radius=None, ind=False, raw=False):
     theta_y[filty] = theta2_y[filty]
     iota = 1/2.*np.sqrt(theta_x**2 + theta_y**2)
     # getting mask
-    maskf = np.logical_or(vectorfield.mask, np.isnan(iota))
+    maskf = np.logical_or(mask, np.isnan(iota))
     # returning
     if raw:
         return np.ma.masked_array(iota, maskf)
-- 
2.43.0


From cb0b20182e54cab4cdf6dfb79934018cea6ca2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 099/129] fix: improved swirling strength failed on masked
 fields

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 7a6d55a..5bd5fc6 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1040,12 +1040,9 @@ def get_improved_swirling_strength(vf, raw=False):
     tmp_vf.fill()
     # Getting gradients and axes
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
-    comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
     mask = tmp_vf.mask
-    dx = axe_x[1] - axe_x[0]
-    dy = axe_y[1] - axe_y[0]
-    du_dx, du_dy = np.gradient(comp_x, dx, dy)
-    dv_dx, dv_dy = np.gradient(comp_y, dx, dy)
+    du_dx, du_dy, dv_dx, dv_dy = get_gradients(vf, raw=True)
+    mask = np.logical_or(mask, du_dx.mask)
     # swirling stregnth matrix
     swst = np.zeros(tmp_vf.shape)
     # loop on  points
-- 
2.43.0


From 3c47e141887d6c877d6dc7f82c155748c404f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 100/129] fix: non-local criterions counted the central point
 or not depending on 'ind'

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 5bd5fc6..d391ca1 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -665,7 +665,7 @@ def get_enstrophy(vectorfield, radius=None, ind=False, mask=None,
         # getting neighbour points
         indsaround = motif + inds
         # Loop on neighbouring points
-        loc_enstrophy = 0.
+        loc_enstrophy = vort2[ind_x, ind_y]
         for i, indaround in enumerate(indsaround):
             loc_enstrophy += vort2[indaround[0], indaround[1]]
         # storing computed gamma value
@@ -700,11 +700,11 @@ def _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
     if ind:
         motif = vectorfield.get_points_around(indcentral, radius, ind)
         motif = motif - indcentral
-        motif = np.delete(motif, int(len(motif)/2), axis=0)
     else:
         ptcentral = [axe_x[indcentral[0]], axe_y[indcentral[1]]]
         motif = vectorfield.get_points_around(ptcentral, radius, ind)
         motif = motif - indcentral
+    motif = np.delete(motif, int(len(motif)/2), axis=0)
     nmbpts = len(motif)
     # Generating masks
     # creating surrounding masked point zone mask
-- 
2.43.0


From dc8e08b6d86689d9a00c48f1184865aeb95698d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 101/129] fix: non-local criterions wrapped around the borders
 when dx and dy differ

---
 .../vortex_criterions/vortex_criterions.py    | 24 ++++++-------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index d391ca1..287c0b9 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -718,23 +718,13 @@ def _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
                 continue
             mask_surr[i, j] = True
     # creating near-border zone mask
-    if ind:
-        indx = np.arange(len(axe_x))
-        indy = np.arange(len(axe_y))
-        border_x = np.logical_or(indx <= indx[0] + (int(radius) - 1),
-                                 indx >= indx[-1] - (int(radius) - 1))
-        border_y = np.logical_or(indy <= indy[0] + (int(radius) - 1),
-                                 indy >= indy[-1] - (int(radius) - 1))
-        border_x, border_y = np.meshgrid(border_x, border_y)
-        mask_border = np.transpose(np.logical_or(border_x, border_y))
-    else:
-        delta = (axe_x[1] - axe_x[0] + axe_y[1] - axe_y[0])/2
-        border_x = np.logical_or(axe_x <= axe_x[0] + (radius - delta),
-                                 axe_x >= axe_x[-1] - (radius - delta))
-        border_y = np.logical_or(axe_y <= axe_y[0] + (radius - delta),
-                                 axe_y >= axe_y[-1] - (radius - delta))
-        border_x, border_y = np.meshgrid(border_x, border_y)
-        mask_border = np.transpose(np.logical_or(border_x, border_y))
+    indx = np.arange(len(axe_x))
+    indy = np.arange(len(axe_y))
+    reach = np.max(np.abs(motif)) if nmbpts > 0 else 0
+    border_x = np.logical_or(indx < reach, indx >= len(axe_x) - reach)
+    border_y = np.logical_or(indy < reach, indy >= len(axe_y) - reach)
+    border_x, border_y = np.meshgrid(border_x, border_y)
+    mask_border = np.transpose(np.logical_or(border_x, border_y))
     # creating dev mask
     mask_dev = np.zeros(vectorfield.shape)
     if dev_pass:
-- 
2.43.0


From fa16cdcb19c885f8e8f42d097cb48bd22497d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:51 +0000
Subject: [PATCH 102/129] fix: get_stokes_vorticity divided the circulation by
 too large an area

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 287c0b9..75e389d 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -934,7 +934,7 @@ def get_stokes_vorticity(vf, window_size=2, raw=False):
             bord_vec = -Vx[i:i + window_size, j + window_size - 1].copy()
             tmp_vort += np.trapz(bord_vec, dx=dx)
             # adding coefficients
-            tmp_vort *= 1./(dx*dy*window_size**2)
+            tmp_vort *= 1./(dx*dy*(window_size - 1)**2)
             # storing
             vort[i, j] = tmp_vort
     # returning
-- 
2.43.0


From 482e681c650bf85a477f57b8ddabd58673d25afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:56 +0000
Subject: [PATCH 103/129] fix: swirling strengths failed on masked fields that
 cannot be filled

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 75e389d..51da5e4 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -974,7 +974,6 @@ def get_swirling_strength(vf, raw=False):
     if not isinstance(vf, VectorField):
         raise TypeError()
     tmp_vf = vf.copy()
-    tmp_vf.fill()
     # Getting gradients and axes
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
     mask = tmp_vf.mask
@@ -1027,7 +1026,6 @@ def get_improved_swirling_strength(vf, raw=False):
     if not isinstance(vf, VectorField):
         raise TypeError()
     tmp_vf = vf.copy()
-    tmp_vf.fill()
     # Getting gradients and axes
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
     mask = tmp_vf.mask
-- 
2.43.0


From 8a3b0dc9ef29ae15edf7aca242e4c9794cb0da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:56 +0000
Subject: [PATCH 104/129] fix: get_iota used the angles of the masked vectors

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 51da5e4..d53348c 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -572,9 +572,11 @@ def get_iota(vectorfield, mask=None, radius=None, ind=False, raw=False):
         tmp_vf = vectorfield.copy()
         tmp_vf.smooth(tos='gaussian', size=radius, inplace=True)
         theta = tmp_vf.theta
+        theta[tmp_vf.mask] = np.nan
         mask = np.logical_or(mask, tmp_vf.mask)
     else:
         theta = vectorfield.theta
+        theta[vectorfield.mask] = np.nan
         mask = np.logical_or(mask, vectorfield.mask)
     # calcul du gradients de theta
     # necesary steps to avoid big gradients by passing from 0 to 2*pi
-- 
2.43.0


From 293475fb9eee7f39b26a31e0b84e4adf8100931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:52 +0000
Subject: [PATCH 105/129] fix: dividing a number or list by a ScalarField gave
 infinite values and a wrong unit

---
 IMTreatment/core/scalarfield.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index e4ae040..fc81358 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -206,7 +206,9 @@ class ScalarField(fld.Field):
     def __rtruediv__(self, obj):
         if isinstance(obj, NUMBERTYPES):
             tmpsf = self.copy()
-            tmpsf.values = obj/tmpsf.values
+            null = self.values == 0
+            tmpsf.values = obj/np.where(null, 1, self.values)
+            tmpsf.mask = np.logical_or(self.mask, null)
             tmpsf.unit_values = 1/tmpsf.unit_values
             return tmpsf
         elif isinstance(obj, unum.Unum):
@@ -220,10 +222,10 @@ class ScalarField(fld.Field):
             if not obj.shape == self.shape:
                 raise ValueError()
             tmpsf = self.copy()
-            mask = np.logical_or(self.mask, obj == 0)
-            not_mask = np.logical_not(mask)
-            tmpsf.values[not_mask] = obj[not_mask] / tmpsf.values[not_mask]
-            tmpsf.mask = mask
+            null = self.values == 0
+            tmpsf.values = obj/np.where(null, 1, self.values)
+            tmpsf.mask = np.logical_or(self.mask, null)
+            tmpsf.unit_values = 1/tmpsf.unit_values
             return tmpsf
         elif isinstance(obj, ScalarField):
             if np.any(self.axe_x != obj.axe_x)\
-- 
2.43.0


From 042f45b79414b396170447bb315c0a55cdfb3e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:37 +0000
Subject: [PATCH 106/129] fix: a VectorField times a ScalarField on another
 grid was not refused

---
 IMTreatment/core/vectorfield.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 43fc627..72863a4 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -233,8 +233,12 @@ class VectorField(field.Field):
             tmpvf.mask = self.mask
             return tmpvf
         elif isinstance(other, sf.ScalarField):
-            if other.shape != self.shape:
-                raise ValueError()
+            if other.shape != self.shape\
+                    or np.any(self.axe_x != other.axe_x)\
+                    or np.any(self.axe_y != other.axe_y)\
+                    or self.unit_x != other.unit_x\
+                    or self.unit_y != other.unit_y:
+                raise ValueError("Fields are not consistent")
             tmpvf = self.copy()
             unit = self.unit_values*other.unit_values
             tmpvf.comp_x *= other.values*unit.asNumber()
-- 
2.43.0


From 4f8029d475720f6e6264a8676067bb88d5e58c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:23 +0000
Subject: [PATCH 107/129] fix: get_time_profile along points mixed up the
 positions and the times

---
 IMTreatment/core/temporalfields.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index d4a9529..616f84a 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -501,10 +501,12 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(pt, pts.Points):
             mask_times = [time not in pt.v for time in self.times]
             mask_times = np.array(mask_times, dtype=bool)
-            pt = [[self.get_indice_on_axe(1, pt.xy[i, 0], kind='nearest'),
-                   self.get_indice_on_axe(2, pt.xy[i, 1], kind='nearest')]
-                  for i in range(len(pt.xy))]
-            pt = np.array(pt, dtype=int)
+            inds = np.zeros((len(self.times), 2), dtype=int)
+            for i in np.where(~mask_times)[0]:
+                xy = pt.xy[list(pt.v).index(self.times[i])]
+                inds[i] = [self.get_indice_on_axe(1, xy[0], kind='nearest'),
+                           self.get_indice_on_axe(2, xy[1], kind='nearest')]
+            pt = inds
         if wanted_times is not None:
             if wanted_times[-1] <= wanted_times[0]:
                 raise ValueError()
@@ -519,7 +521,7 @@ class TemporalFields(flds.Fields, fld.Field):
         compo = np.empty(dim, dtype=float)
         masks = np.empty(dim, dtype=float)
         for i, time_ind in enumerate(w_times_ind):
-            ind_x, ind_y = pt[i]
+            ind_x, ind_y = pt[time_ind]
             compo[i] = self.fields[time_ind].__getattribute__(component)[ind_x,
                                                                          ind_y]
             masks[i] = self.fields[time_ind].mask[ind_x, ind_y]
-- 
2.43.0


From 7eccc853374db0ee74fb7d27c9f54ec500086ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:52 +0000
Subject: [PATCH 108/129] fix: smooth with an unknown method filled the object
 in place before refusing

---
 IMTreatment/core/profile.py     | 2 ++
 IMTreatment/core/scalarfield.py | 2 ++
 IMTreatment/core/vectorfield.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 233053f..aebe4e8 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1784,6 +1784,8 @@ class Profile(object):
         """
         if not isinstance(tos, STRINGTYPES):
             raise TypeError("'tos' must be a string")
+        if tos not in ['uniform', 'gaussian']:
+            raise ValueError("'tos' must be 'uniform' or 'gaussian'")
         if size is None and tos == 'uniform':
             size = 3
         elif size is None and tos == 'gaussian':
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index fc81358..78a24a4 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1914,6 +1914,8 @@ class ScalarField(fld.Field):
         """
         if not isinstance(tos, STRINGTYPES):
             raise TypeError("'tos' must be a string")
+        if tos not in ['uniform', 'gaussian']:
+            raise ValueError("'tos' must be 'uniform' or 'gaussian'")
         if size is None and tos == 'uniform':
             size = 3
         elif size is None and tos == 'gaussian':
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 72863a4..b953828 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -873,6 +873,8 @@ class VectorField(field.Field):
         """
         if not isinstance(tos, STRINGTYPES):
             raise TypeError("'tos' must be a string")
+        if tos not in ['uniform', 'gaussian']:
+            raise ValueError("'tos' must be 'uniform' or 'gaussian'")
         if size is None and tos == 'uniform':
             size = 3
         elif size is None and tos == 'gaussian':
-- 
2.43.0


From 57d2ac088600bddc8c7173f89d5379602826b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:47 +0000
Subject: [PATCH 109/129] fix: densities of points failed when the two axes
 have different length units

---
 IMTreatment/core/points.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 4674e04..cc5977c 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -417,6 +417,9 @@ class Points(object):
         else:
             from .scalarfield import ScalarField
             sf = ScalarField()
+            fact = unit_values.asNumber()
+            values = values*fact
+            unit_values = unit_values/fact
             sf.import_from_arrays(axe_x, axe_y, values, mask=False,
                                   unit_x=self.unit_x, unit_y=self.unit_y,
                                   unit_values=unit_values)
@@ -526,6 +529,9 @@ class Points(object):
                 unit_values = self.unit_v/self.unit_x/self.unit_y
             else:
                 unit_values = 1/self.unit_x/self.unit_y
+            fact = unit_values.asNumber()
+            values = values*fact
+            unit_values = unit_values/fact
             sf.import_from_arrays(axe_x, axe_y, values, mask=False,
                                   unit_x=self.unit_x, unit_y=self.unit_y,
                                   unit_values=unit_values)
-- 
2.43.0


From c8936a14d2a0a7a2cfa4e137de8621d7ddcf95ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:08 +0000
Subject: [PATCH 110/129] fix: obsolete trajectories of critical points were
 kept

---
 IMTreatment/vortex_detection/vortex_detection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index bb42f88..fb9dee1 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1556,8 +1556,8 @@ class CritPoints(object):
         This method is called when some points are modified (deleted or added).
         """
         self.current_epsilon = None
-        for i in range(len(self.iter_traj)):
-            self.iter_traj[i] = None
+        for traj_type in self.cp_types:
+            self.__setattr__("{}_traj".format(traj_type), None)
 
     def _remove_void_trajectories(self):
         """
-- 
2.43.0


From c962e80f59e8e710afe3109a0a9569b06cbe24ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:08 +0000
Subject: [PATCH 111/129] fix: cropping critical points in time failed without
 trajectories and cropped those of the original

---
 .../vortex_detection/vortex_detection.py      | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index fb9dee1..82c90dd 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1328,16 +1328,23 @@ class CritPoints(object):
             else:
                 filt = np.logical_and(tmp_cp.times >= intervt[0],
                                       tmp_cp.times <= intervt[1])
+            kept_times = tmp_cp.times[filt]
             tmp_cp.times = tmp_cp.times[filt]
             tmp_cp.foc = tmp_cp.foc[filt]
             tmp_cp.foc_c = tmp_cp.foc_c[filt]
             tmp_cp.sadd = tmp_cp.sadd[filt]
             tmp_cp.node_i = tmp_cp.node_i[filt]
             tmp_cp.node_o = tmp_cp.node_o[filt]
-            for traj_type in self.iter_traj:
-                [traj.crop(intervv=intervt, ind=ind, inplace=True)
-                 for traj in traj_type]
-            self._remove_void_trajectories()
+            if len(kept_times) == 0:
+                tmp_cp._remove_trajectories()
+            else:
+                for traj_type in tmp_cp.iter_traj:
+                    if traj_type is None:
+                        continue
+                    for traj in traj_type:
+                        traj.crop(intervv=[kept_times[0], kept_times[-1]],
+                                  inplace=True)
+                tmp_cp._remove_void_trajectories()
         # spatial cropping
         if intervx is not None or intervy is not None:
             for kind in tmp_cp.iter:
@@ -1566,8 +1573,10 @@ class CritPoints(object):
         for traj_type in self.cp_types:
             traj_type = "{}_traj".format(traj_type)
             trajs = self.__getattribute__(traj_type)
-            filt = np.array([len(traj) != 0 for traj in trajs])
-            self.__setattr__(traj_type, trajs[filt])
+            if trajs is None:
+                continue
+            trajs = [traj for traj in trajs if len(traj) != 0]
+            self.__setattr__(traj_type, trajs)
 
     def _sort_by_time(self):
         """
-- 
2.43.0


From c5e621019deb1042bd3e07fcbc8b7ec10ae5d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:08 +0000
Subject: [PATCH 112/129] fix: set_origin and change_unit of critical points
 failed without trajectories

---
 IMTreatment/vortex_detection/vortex_detection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 82c90dd..ea46eb5 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1204,6 +1204,8 @@ class CritPoints(object):
             for pt in pts:
                 pt.set_origin(x=x, y=y)
         for trajs in self.iter_traj:
+            if trajs is None:
+                continue
             for traj in trajs:
                 traj.set_origin(x=x, y=y)
 
@@ -1243,8 +1245,9 @@ class CritPoints(object):
                 for pt in kind:
                     pt.change_unit('v', new_unit)
             for kind in self.iter_traj:
-                for pt in kind:
-                    pt.change_unit('v', new_unit)
+                if kind is not None:
+                    for pt in kind:
+                        pt.change_unit('v', new_unit)
             old_unit = self.unit_time
             new_unit = old_unit.asUnit(new_unit)
             fact = new_unit.asNumber()
-- 
2.43.0


From 89cba6fc9b55cb4d91c40f1eaa17e63c4754e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:08 +0000
Subject: [PATCH 113/129] fix: the maximal distance of trajectories was
 compared with squared distances

---
 IMTreatment/vortex_detection/vortex_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index ea46eb5..b949cb6 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1748,7 +1748,7 @@ class CritPoints(object):
                         = np.unravel_index(np.argmin(dist2_mat),
                                            dist2_mat.shape)
                     # if dist to big or nothing remaining, we stop
-                    if (dist2_mat[indmin_pt, indmin_line] > epsilon or
+                    if (dist2_mat[indmin_pt, indmin_line] > self.epsilon2 or
                             dist2_mat[indmin_pt, indmin_line] == np.inf):
                         break
                     # append pt to Line
-- 
2.43.0


From 065d03e05b1161fc0b398df7ac845ac08e657e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:08 +0000
Subject: [PATCH 114/129] fix: adding an empty set of critical points gave back
 the same object

---
 IMTreatment/vortex_detection/vortex_detection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index b949cb6..8c922d5 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -469,9 +469,9 @@ class CritPoints(object):
     def __add__(self, obj):
         if isinstance(obj, CritPoints):
             if len(obj.times) == 0:
-                return self
+                return self.copy()
             if len(self.times) == 0:
-                return obj
+                return obj.copy()
             if not self.unit_time == obj.unit_time:
                 raise ValueError()
             if not self.unit_x == obj.unit_x:
-- 
2.43.0


From eb0c4c2cf42a66e105598cfd19068da43aacb972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:49 +0000
Subject: [PATCH 115/129] fix: get_critical_points with smoothing changed the
 given field

---
 IMTreatment/vortex_detection/vortex_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 8c922d5..e4cc4bb 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2726,7 +2726,7 @@ def get_critical_points(obj, time=0, unit_time='', window_size=4,
                                      inplace=True, interp=mirror_interp,
                                      value=[0, 0])
         else:
-            tmp_vf = obj
+            tmp_vf = obj.copy()
         # smoothing if necessary
         if smoothing_size != 0:
             tmp_vf.smooth(tos='gaussian', size=smoothing_size, inplace=True)
-- 
2.43.0


From 59227a71320c46e20e32d43ea567ce6bfe29868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:28 +0000
Subject: [PATCH 116/129] fix: topo_simplify failed on Python 3, and when there
 is no point at a time

---
 IMTreatment/vortex_detection/vortex_detection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index e4cc4bb..ed57b30 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1452,7 +1452,7 @@ class CritPoints(object):
             Simplified topological points field.
         """
         simpl_CP = CritPoints(unit_time=self.unit_time)
-        for i in np.arange(len(self.times)):
+        for i in range(len(self.times)):
             TP = TopoPoints()
             TP.import_from_CP(self, i)
             TP = TP.simplify(dist_min, kind=kind)
@@ -2209,7 +2209,7 @@ class TopoPoints(object):
             for pt in typ[wanted_ind].xy:
                 xy.append(pt)
                 types.append(i + 1)
-        self.import_from_arrays(xy, types)
+        self.import_from_arrays(np.reshape(xy, (-1, 2)), types)
 
     def _get_dist2(self):
         # initialize array
@@ -2256,7 +2256,7 @@ class TopoPoints(object):
         types = [[typ] for typ in types]
         pbis = self.pbis.copy()
         # simplication loop
-        while True:
+        while self.dim > 0:
             # get min position
             amin = np.argmin(dist2)
             ind_1 = int(amin/self.dim)
-- 
2.43.0


From eaa5825209ae718be14a67ce9125c82c77a9092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:28 +0000
Subject: [PATCH 117/129] fix: the sum of critical points shared its points
 with the terms

---
 IMTreatment/vortex_detection/vortex_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index ed57b30..a38f387 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -494,7 +494,7 @@ class CritPoints(object):
                 if t == tmp_CP.times[i+1]:
                     raise ValueError()
             # returning
-            return tmp_CP
+            return tmp_CP.copy()
         else:
             raise TypeError()
 
-- 
2.43.0


From c4cdecfd72ac6fceefa225e4b60a49bf8ec7c29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:28 +0000
Subject: [PATCH 118/129] fix: refusing the first critical points still changed
 the units

---
 IMTreatment/vortex_detection/vortex_detection.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index a38f387..585ae48 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -1138,24 +1138,27 @@ class CritPoints(object):
         if np.any(self.times == time):
             raise ValueError()
         # first point
+        unit_x, unit_y = self.unit_x, self.unit_y
         if len(self.times) == 0:
             for pt in diff_pts:
                 if pt is not None:
-                    self.unit_x = pt.unit_x
-                    self.unit_y = pt.unit_y
+                    unit_x = pt.unit_x
+                    unit_y = pt.unit_y
                     break
         # set default values
         for i, pt in enumerate(diff_pts):
             if pt is None:
-                diff_pts[i] = Points(unit_x=self.unit_x, unit_y=self.unit_y,
+                diff_pts[i] = Points(unit_x=unit_x, unit_y=unit_y,
                                      unit_v=self.unit_time)
         # check units
         for pt in diff_pts:
-            if pt.unit_x != self.unit_x:
+            if pt.unit_x != unit_x:
                 raise ValueError()
-            if pt.unit_y != self.unit_y:
+            if pt.unit_y != unit_y:
                 raise ValueError()
         # store data
+        self.unit_x = unit_x
+        self.unit_y = unit_y
         self.foc = np.append(self.foc, diff_pts[0].copy())
         self.foc_c = np.append(self.foc_c, diff_pts[1].copy())
         self.node_i = np.append(self.node_i, diff_pts[2].copy())
-- 
2.43.0


From e1700b57bd2f4e0e87a5825d1d271f3d709651b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:28 +0000
Subject: [PATCH 119/129] fix: compute_traj refused distances in another unit
 of length than the axes

---
 IMTreatment/vortex_detection/vortex_detection.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 585ae48..b348c51 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -612,11 +612,7 @@ class CritPoints(object):
         elif isinstance(epsilon, NUMBERTYPES):
             pass
         elif isinstance(epsilon, unum.Unum):
-            fact = epsilon/self.unit_x
-            unit_fact = fact.strUnit()
-            if unit_fact != '[]':
-                raise ValueError()
-            epsilon = fact.asNumber()
+            epsilon = epsilon.asNumber(self.unit_x)
         else:
             raise TypeError()
         self.current_epsilon = epsilon
-- 
2.43.0


From b5fc7c08fd4ce0f6f3fdc2aa41f974f42cd64bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:48 +0000
Subject: [PATCH 120/129] fix: critical points at one time were equal to
 critical points at no time

---
 IMTreatment/vortex_detection/vortex_detection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index b348c51..97dfd82 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -501,6 +501,8 @@ class CritPoints(object):
     def __eq__(self, obj):
         if not isinstance(obj, CritPoints):
             return False
+        if len(obj.times) != len(self.times):
+            return False
         for attr in ['foc', 'foc_c', 'node_i', 'node_o', 'sadd']:
             if not np.all(obj.__getattribute__(attr) ==
                           self.__getattribute__(attr)):
-- 
2.43.0


From f147fa0c3beba22ea4311da733696d25c81afe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:35 +0000
Subject: [PATCH 121/129] fix: foci and nodes were mixed up on grids with
 different steps along x and y

---
 IMTreatment/vortex_detection/vortex_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 97dfd82..16a56ad 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -158,7 +158,8 @@ class VF(object):
                 if tmp_vf.pbi_x[1] == -1:
                     cp_types.append(0)
                 else:
-                    jac = _get_jacobian_matrix(tmp_vf.vx, tmp_vf.vy)
+                    jac = _get_jacobian_matrix(tmp_vf.vx, tmp_vf.vy,
+                                               dx=delta_x, dy=delta_y)
                     eigvals, eigvects = np.linalg.eig(jac)
                     tau = np.real(eigvals[0])
                     mu = np.sum(np.abs(np.imag(eigvals)))
-- 
2.43.0


From 8c59487f7d269b21fae7dfd8e2ea0d32f803d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:35 +0000
Subject: [PATCH 122/129] fix: critical points were lost when the velocity
 varies linearly in their cell

---
 IMTreatment/vortex_detection/vortex_detection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 16a56ad..649f147 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -285,6 +285,8 @@ class VF(object):
                     x_sols[j] = x_sols[j].as_real_imag()[0]
                 if np.iscomplex(y_sols[j]):
                     y_sols[j] = y_sols[j].as_real_imag()[0]
+                if np.isnan(x_sols[j]) or np.isnan(y_sols[j]):
+                    continue
                 if (x_sols[j] < 0 or x_sols[j] > real_dx or
                         y_sols[j] < 0 or y_sols[j] > real_dy):
                     continue
-- 
2.43.0


From 855a63eb7daa1a08987b91b84bced68eace5f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:35 +0000
Subject: [PATCH 123/129] fix: opposite velocity components were taken for a
 null velocity when placing critical points

---
 IMTreatment/vortex_detection/vortex_detection.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 649f147..d07a951 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -234,11 +234,12 @@ class VF(object):
                 res_pos = pos
                 return pos
             # check if null values
-            nmb_zeros = np.sum(Vx_bl + Vy_bl == 0)
+            null_bl = np.logical_and(Vx_bl == 0, Vy_bl == 0)
+            nmb_zeros = np.sum(null_bl)
             if nmb_zeros == 1:
-                inds = np.array(np.where(Vx_bl + Vy_bl == 0)).reshape(2)
-                res_pos = np.array([axe_x[ind_x + inds[0]],
-                                    axe_y[ind_y + inds[1]]])
+                inds = np.array(np.where(null_bl)).reshape(2)
+                res_pos = np.array([axe_x[ind_x + inds[1]],
+                                    axe_y[ind_y + inds[0]]])
                 return res_pos
             elif nmb_zeros > 1:
                 res_pos = pos
-- 
2.43.0


From 7d12b8d0d4f1f2c729c5da52cdd6192d30e9cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:13 +0000
Subject: [PATCH 124/129] fix: masked points made the displacement and momentum
 thicknesses NaN

---
 IMTreatment/boundary_layer/boundary_layer.py | 38 ++++++++------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index ae9be9a..21d92e1 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -928,21 +928,16 @@ def get_displ_thickness(obj, direction=1):
         if bl_thick == 0:
             return 0
         obj = obj.crop([0, bl_thick])
-        # removing negative and masked points
-        if isinstance(obj.y, np.ma.MaskedArray):
-            mask = np.logical_and(obj.y.mask, obj.x < 0)
-            obj.x = obj.x[~mask]
-            obj.y = obj.y._data[~mask]
+        # removing masked points
+        pos_x = obj.x[~obj.mask]
+        pos_y = obj.y[~obj.mask]
         # if there is no more value in the profile (all masked)
-        if len(obj.x) == 0:
+        if len(pos_x) == 0:
             return 0
         # adding a x(0) value if necessary
-        if obj.x[0] != 0:
-            pos_x = np.append([0], obj.x)
-            pos_y = np.append([0], obj.y)
-        else:
-            pos_x = obj.x
-            pos_y = obj.y
+        if pos_x[0] != 0:
+            pos_x = np.append([0], pos_x)
+            pos_y = np.append([0], pos_y)
         # computing bl displacement thickness
         fonct = 1 - pos_y/np.max(pos_y)
         delta = np.trapz(fonct, pos_x)
@@ -985,21 +980,16 @@ def get_momentum_thickness(obj, direction=1):
         if bl_thick == 0:
             return 0
         obj = obj.crop([0, bl_thick])
-        # removing negative and masked points
-        if isinstance(obj.y, np.ma.MaskedArray):
-            mask = np.logical_and(obj.y.mask, obj.x < 0)
-            obj.x = obj.x[~mask]
-            obj.y = obj.y._data[~mask]
+        # removing masked points
+        pos_x = obj.x[~obj.mask]
+        pos_y = obj.y[~obj.mask]
         # if there is no more profile (all masked)
-        if len(obj.x) == 0:
+        if len(pos_x) == 0:
             return 0
         # adding a x(0) value
-        if obj.x[0] != 0:
-            pos_x = np.append([0], obj.x)
-            pos_y = np.append([0], obj.y)
-        else:
-            pos_x = obj.x
-            pos_y = obj.y
+        if pos_x[0] != 0:
+            pos_x = np.append([0], pos_x)
+            pos_y = np.append([0], pos_y)
         # computing bl momentum thickness
         fonct = pos_y/np.max(pos_y)*(1 - pos_y/np.max(pos_y))
         delta = np.trapz(fonct, pos_x)
-- 
2.43.0


From c5ed3e1a16d1267e1ea5661e9a2afe6568a9216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:07 +0000
Subject: [PATCH 125/129] fix: boundary layer thicknesses of a field passed an
 unknown direction to get_profile

---
 IMTreatment/boundary_layer/boundary_layer.py | 46 +++++++++-----------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 21d92e1..7ef8b6e 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -814,6 +814,18 @@ class WakeLaw(WallLaw):
                 2.*Cc/self.k*np.sin(np.pi*y/(2.*self.delta))**2)
 
 
+def _get_profiles(obj, direction):
+    """
+    Return the swept axis (1 for x and 2 for y) of the scalar field, the
+    profiles along the other one, and the units of both axes.
+    """
+    if direction == 1:
+        return (obj.axe_x, [obj.get_profile('x', x) for x in obj.axe_x],
+                obj.unit_x, obj.unit_y)
+    return (obj.axe_y, [obj.get_profile('y', y) for y in obj.axe_y],
+            obj.unit_y, obj.unit_x)
+
+
 def get_bl_thickness(obj, direction=1, perc=0.95):
     """
     Return a boundary layer thickness if 'obj' is a Profile.
@@ -842,13 +854,9 @@ def get_bl_thickness(obj, direction=1, perc=0.95):
         value = obj.get_interpolated_values(y=maxi*perc)
         return value[0]
     elif isinstance(obj, ScalarField):
-        if direction == 1:
-            axe = obj.axe_x
-        else:
-            axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        axe, profiles, unit_x, unit_y = _get_profiles(obj, direction)
         values = [get_bl_thickness(prof, perc=perc) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_x, unit_y=unit_y)
     else:
         raise TypeError("Can't compute (yet ?) BL thickness on this kind of"
                         " data : {}".format(type(obj)))
@@ -892,15 +900,11 @@ def get_clauser_thickness(obj, direction=1, rho=1000, nu=1e-6, tau=None):
         return Delta_star
     # if obj is a scalarField
     elif isinstance(obj, ScalarField):
-        if direction == 1:
-            axe = obj.axe_x
-        else:
-            axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        axe, profiles, unit_x, unit_y = _get_profiles(obj, direction)
         values = [get_clauser_thickness(prof, direction=direction, rho=rho,
                                         nu=nu)
-                  for prof, _ in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+                  for prof in profiles]
+        return Profile(axe, values, unit_x=unit_x, unit_y=unit_y)
 
 
 def get_displ_thickness(obj, direction=1):
@@ -943,13 +947,9 @@ def get_displ_thickness(obj, direction=1):
         delta = np.trapz(fonct, pos_x)
         return delta
     elif isinstance(obj, ScalarField):
-        if direction == 1:
-            axe = obj.axe_x
-        else:
-            axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        axe, profiles, unit_x, unit_y = _get_profiles(obj, direction)
         values = [get_displ_thickness(prof) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_x, unit_y=unit_y)
     else:
         raise TypeError("Can't compute (yet ?) BL displacement thickness on"
                         "this kind of data : {}".format(type(obj)))
@@ -995,13 +995,9 @@ def get_momentum_thickness(obj, direction=1):
         delta = np.trapz(fonct, pos_x)
         return delta
     elif isinstance(obj, ScalarField):
-        if direction == 1:
-            axe = obj.axe_x
-        else:
-            axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        axe, profiles, unit_x, unit_y = _get_profiles(obj, direction)
         values = [get_momentum_thickness(prof) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_x, unit_y=unit_y)
     else:
         raise TypeError("Can't compute (yet ?) BL momentum thickness on"
                         "this kind of data")
-- 
2.43.0


From 499ccf27e2d8d41e004a969c956844540e72d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:32 +0000
Subject: [PATCH 126/129] fix: get_zones_centers changed the bounds given by
 the caller

---
 IMTreatment/core/scalarfield.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 78a24a4..c37f1f2 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -648,16 +648,15 @@ class ScalarField(fld.Field):
         pts : pts.Points object
             Contening the centers coordinates
         """
-        # correcting python's problem with egality...
-        bornes[0] -= 0.00001*abs(bornes[0])
-        bornes[1] += 0.00001*abs(bornes[1])
         # checking parameters coherence
         if not isinstance(bornes, ARRAYTYPES):
             raise TypeError("'bornes' must be an array")
-        if not isinstance(bornes, np.ndarray):
-            bornes = np.array(bornes, dtype=float)
+        bornes = np.array(bornes, dtype=float)
         if not bornes.shape == (2,):
             raise ValueError("'bornes' must be a 2x1 array")
+        # correcting python's problem with egality...
+        bornes[0] -= 0.00001*abs(bornes[0])
+        bornes[1] += 0.00001*abs(bornes[1])
         if bornes[0] == bornes[1]:
             return None
         if not bornes[0] < bornes[1]:
-- 
2.43.0


From 9732099683901bb98d4502105a52f6660f750677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:32 +0000
Subject: [PATCH 127/129] fix: centers of zones were misplaced on unevenly
 spaced axes

---
 IMTreatment/core/scalarfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index c37f1f2..c584a6f 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -729,12 +729,12 @@ class ScalarField(fld.Field):
             if indx % 1 == 0:
                 x = self.axe_x[int(indx)]
             else:
-                dx = self.axe_x[1] - self.axe_x[0]
+                dx = self.axe_x[int(indx) + 1] - self.axe_x[int(indx)]
                 x = self.axe_x[int(indx)] + dx*(indx % 1)
             if indy % 1 == 0:
                 y = self.axe_y[int(indy)]
             else:
-                dy = self.axe_y[1] - self.axe_y[0]
+                dy = self.axe_y[int(indy) + 1] - self.axe_y[int(indy)]
                 y = self.axe_y[int(indy)] + dy*(indy % 1)
             coords.append([x, y])
         coords = np.array(coords, dtype=float)
-- 
2.43.0


From d3604dfb8261010d0de69c6cb82edc2b11badb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:32 +0000
Subject: [PATCH 128/129] fix: histograms of scalar fields were shifted, and
 refused masked points

---
 IMTreatment/core/scalarfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index c584a6f..24a7225 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -961,11 +961,11 @@ class ScalarField(fld.Field):
         """
         if bins is None:
             bins = 10
-        hist, xs = np.histogram(self.values.flatten(),
+        hist, xs = np.histogram(self.values[~self.mask],
                                 bins=bins,
                                 range=range,
                                 density=normalized)
-        xs = xs[0:-1] + np.mean(xs[0:2])
+        xs = (xs[0:-1] + xs[1:])/2.
         if cum:
             hist = np.cumsum(hist)
 
-- 
2.43.0


From 6bd1a9ab0a8044d0c52e9d6bb8441d4e50358cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:52 +0000
Subject: [PATCH 129/129] fix: centers of zones reaching the end of an axis,
 and exact steps on even axes

---
 IMTreatment/core/scalarfield.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 24a7225..365bae3 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -723,18 +723,25 @@ class ScalarField(fld.Field):
         else:
             raise ValueError("Invalid value for 'kind'")
         coords = []
+
+        def get_step(axe, i):
+            steps = axe[1::] - axe[0:-1]
+            if np.allclose(steps, steps[0], atol=0):
+                return steps[0]
+            return steps[min(i, len(steps) - 1)]
+
         for ind in inds:
             indx = ind[0]
             indy = ind[1]
             if indx % 1 == 0:
                 x = self.axe_x[int(indx)]
             else:
-                dx = self.axe_x[int(indx) + 1] - self.axe_x[int(indx)]
+                dx = get_step(self.axe_x, int(indx))
                 x = self.axe_x[int(indx)] + dx*(indx % 1)
             if indy % 1 == 0:
                 y = self.axe_y[int(indy)]
             else:
-                dy = self.axe_y[int(indy) + 1] - self.axe_y[int(indy)]
+                dy = get_step(self.axe_y, int(indy))
                 y = self.axe_y[int(indy)] + dy*(indy % 1)
             coords.append([x, y])
         coords = np.array(coords, dtype=float)
-- 
2.43.0

