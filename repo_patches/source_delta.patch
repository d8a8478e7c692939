From e5f33b13297d1f2052e8c7c8f056639b66d3f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 001/220] fix: hasName answers False, not IndexError, on an
 empty axis

---
 nimble/core/data/axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 636551e..0d0b46d 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -357,7 +357,8 @@ class Axis(ABC):
         try:
             self._getIndex(name)
             return True
-        except KeyError:
+        except (KeyError, IndexError):
+            # IndexError is raised for any identifier of an empty axis
             return False
 
     def _getitem(self, key):
-- 
2.43.0


From b497a5b4352e66c8b1e3361d32a062728e8f149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 002/220] fix: replaceRectangle infers featureEnd from the
 features of replaceWith

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 99cefb1..2fa0d55 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3964,7 +3964,7 @@ class Base(ABC):
                         start=pointStart, end=pointEnd, rangeLen=prange)
                     raise InvalidArgumentValueCombination(msg)
             if featureEnd is None:
-                feIndex = fsIndex + len(replaceWith.points) - 1
+                feIndex = fsIndex + len(replaceWith.features) - 1
             else:
                 feIndex = self.features.getIndex(featureEnd)
                 frange = (feIndex - fsIndex) + 1
-- 
2.43.0


From 133728b4151f8a75648a97891ab3b67c99dc0f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 003/220] fix: replaceRectangle no longer truncates floats
 placed in an int object

---
 nimble/core/data/matrix.py | 5 +++++
 nimble/core/data/sparse.py | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 0fd5a76..06f9f3f 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -230,6 +230,11 @@ class Matrix(Base):
         else:
             values = replaceWith._data
 
+        # the modified data must be able to hold the new values
+        dtype = np.result_type(self._data.dtype, values.dtype)
+        if dtype != self._data.dtype:
+            self._data = self._data.astype(dtype)
+
         # numpy is exclusive
         pointEnd += 1
         featureEnd += 1
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 45605e8..4252488 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -417,6 +417,12 @@ class Sparse(Base):
         else:
             replaceWith._sortInternal('point')
 
+        # the modified data must be able to hold the new values
+        newType = type(replaceWith) if constant else replaceWith._data.dtype
+        dtype = np.result_type(self._data.dtype, newType)
+        if dtype != self._data.dtype:
+            self._data = self._data.astype(dtype)
+
         # this has to be after the possible call to
         # _replaceRectangle_zeros_implementation; unnecessary for that helper
         self._sortInternal('point', setIndices=True)
-- 
2.43.0


From ab491dafab6552dcdd6530a9a8484b0a7be77b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 004/220] fix: Sparse replaceRectangle below the last nonzero
 value

---
 nimble/core/data/sparse.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 4252488..3d95e65 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -443,9 +443,8 @@ class Sparse(Base):
         # Adjust selfIdx so that it begins at the values that might need to be
         # replaced, or, if no such values exist, set selfIdx such that the main
         # loop will ignore the contents of self.
-        if len(self._data.data) > 0:
-            selfIdx = self._sorted['indices'][pointStart]
-
+        selfIdx = self._sorted['indices'][pointStart]
+        if selfIdx < len(self._data.data):
             pcheck = self._data.row[selfIdx]
             fcheck = self._data.col[selfIdx]
             # the condition in the while loop is a natural break, if it isn't
@@ -462,7 +461,7 @@ class Sparse(Base):
                 pcheck = self._data.row[selfIdx]
                 fcheck = self._data.col[selfIdx]
 
-            copyIndex = selfIdx
+        copyIndex = selfIdx
 
         # Walk full contents of both, modifying, shifing, or setting aside
         # values as needed. We will only ever increment one of selfIdx or
-- 
2.43.0


From b5e38bdc8679051e26b15400d1a3d979262c40a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 005/220] fix: Sparse replaceRectangle with zero invalidates
 the sorted index

---
 nimble/core/data/sparse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 3d95e65..5168151 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -613,6 +613,7 @@ class Sparse(Base):
         shape = (len(self.points), len(self.features))
         self._data = scipy.sparse.coo_matrix((newData, (newRow, newCol)),
                                              shape)
+        self._resetSorted()
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
-- 
2.43.0


From 1f1344a8b197337e23f7a14e8e6d29444ccd28b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 006/220] fix: Sparse transformElements with preserveZeros
 invalidates the sorted index

---
 nimble/core/data/sparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 5168151..515efa8 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -197,6 +197,8 @@ class Sparse(Base):
         if all(issubclass(type(d), numbers.Number) for d in self._data.data):
             self._data.data = np.array(list(self._data.data))
         self._data.eliminate_zeros()
+        # the indices of the sorted data are stale if values were removed
+        self._resetSorted()
 
     def _calculate_implementation(self, function, points, features,
                                   preserveZeros):
-- 
2.43.0


From bbd712043b46a850ffc9512e131a8a41f0744d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 007/220] fix: assigning a float into an int Matrix or Sparse
 no longer truncates

---
 nimble/core/data/matrix.py | 2 +-
 nimble/core/data/sparse.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 06f9f3f..2cc0939 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -406,7 +406,7 @@ class Matrix(Base):
         return self._data[x, y]
     
     def _setitem_implementation(self, x, y, value):
-        self._data[x, y] = value
+        self._data = modifyNumpyArrayValue(self._data, (x, y), value)
 
     def _view_implementation(self, pointStart, pointEnd, featureStart,
                              featureEnd, dropDimension):
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 515efa8..dc4b542 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -854,7 +854,9 @@ class Sparse(Base):
             k = np.searchsorted(offAxis[start:end], offAxisVal) + start
             if k < end and offAxis[k] == offAxisVal:
                 if value != 0:
-                    self._data.data[k] = value  # Update existing entry
+                    # Update existing entry
+                    self._data.data = modifyNumpyArrayValue(self._data.data,
+                                                            k, value)
                 else:
                     # Remove entry if value is zero (maintain sparsity)
                     self._data.data = np.delete(self._data.data, k)
-- 
2.43.0


From 528884ae4726c4233eb338e66c2f138c427c50c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 008/220] fix: item assignment with one identifier, or a full
 slice, on an axis

---
 nimble/core/data/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 2fa0d55..c8d662c 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2255,6 +2255,15 @@ class Base(ABC):
         if single_x and single_y:
             self._setitem_implementation(x, y, value)
         else:
+            # full slices are None, see _processMultiple
+            if single_x:
+                x = [x]
+            elif x is None:
+                x = range(len(self.points))
+            if single_y:
+                y = [y]
+            elif y is None:
+                y = range(len(self.features))
             for i in x:
                 for j in y:
                     self._setitem_implementation(i, j, value)
-- 
2.43.0


From cc7c23294b4da1e5e3327cc11c912908cd1dc862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 009/220] fix: points/features.calculate names follow the order
 of the limited axis

---
 nimble/core/data/axis.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 0d0b46d..52a0e8f 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -558,13 +558,11 @@ class Axis(ABC):
             axisNameSetter = ret.features.setNames
             offAxisNameSetter = ret.points.setNames
 
-        if len(limitTo) < len(self) and self._namesCreated():
+        if self._namesCreated():
             names = []
             for index in limitTo:
                 names.append(self._getName(index))
             axisNameSetter(names, useLog=False)
-        elif self._namesCreated():
-            axisNameSetter(self._getNames(), useLog=False)
         if offAxisNames is not None:
             offAxisNameSetter(offAxisNames, useLog=False)
 
-- 
2.43.0


From 0df47ad029b22f8bb1c0361433ccee5365290f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 010/220] fix: repeat of an axis where only some of the names
 are set

---
 nimble/core/data/axis.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 52a0e8f..dff7cd5 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -823,18 +823,21 @@ class Axis(ABC):
             for idx, name in enumerate(origNames):
                 for i in range(totalCopies):
                     currIdx = (totalCopies * idx) + i
+                    # default names remain default names
+                    newName = name and name + "_" + str(i + 1)
                     if currIdx < len(origNames):
-                        namesToRepeat[currIdx] = name + "_" + str(i + 1)
+                        namesToRepeat[currIdx] = newName
                     else:
-                        namesToRepeat.append(name + "_" + str(i + 1))
+                        namesToRepeat.append(newName)
         elif namesToRepeat is not None:
             origNames = namesToRepeat.copy()
             for i in range(totalCopies):
                 for idx, name in enumerate(origNames):
+                    newName = name and name + "_" + str(i + 1)
                     if i == 0:
-                        namesToRepeat[idx] = name + "_" + str(i + 1)
+                        namesToRepeat[idx] = newName
                     else:
-                        namesToRepeat.append(name + "_" + str(i + 1))
+                        namesToRepeat.append(newName)
 
         ret = createDataNoValidation(self._base.getTypeString(), repeated,
                                      pointNames=ptNames, featureNames=ftNames)
-- 
2.43.0


From a51bb78d00988153c568fadba9edc221c3cc5d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 011/220] fix: result of a binary operation does not share its
 dimensions with the operand

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index c8d662c..18c7ba5 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5442,7 +5442,7 @@ class Base(ABC):
             obj._diagnoseFailureAndRaiseException(opName, other, error)
             raise # backup; should be diagnosed and raised above
 
-        ret._dims = self._dims
+        ret._dims = self._dims.copy()
         if opName.startswith('__i'):
             self._referenceFrom(ret, paths=(self._absPath, self._relPath))
             ret = self
-- 
2.43.0


From 91a0ae1773bcab460f29b0a65ece90da58384441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 012/220] fix: abs() keeps point names when there are no
 feature names

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 18c7ba5..44db609 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5211,7 +5211,7 @@ class Base(ABC):
         if self.features._namesCreated():
             ret.features.setNames(self.features.getNames(), useLog=False)
         else:
-            ret.points.setNames(None, useLog=False)
+            ret.features.setNames(None, useLog=False)
 
         ret._name = None
         ret._absPath = self.absolutePath
-- 
2.43.0


From 010f71b8015ad333ef63a4a4e9945c093bb41b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 013/220] fix: changing a value of bool data to a number keeps
 the number

---
 nimble/core/data/_dataHelpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index ce95dca..90b1f0d 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1166,6 +1166,10 @@ def modifyNumpyArrayValue(arr, index, newVal):
         arr = arr.astype(np.object_)
     elif floatNewVal and arr.dtype not in (np.floating, np.object_):
         arr = arr.astype(np.float64)
+    elif (arr.dtype == np.bool_
+          and isinstance(newVal, (int, np.integer))
+          and not isinstance(newVal, bool)):
+        arr = arr.astype(np.int_)
 
     arr[index] = newVal
 
-- 
2.43.0


From 25b442452aeaa468bbe19960c55b1a5e8e501ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 014/220] fix: calculateOnElements and transformElements do not
 truncate to the type of the first output

---
 nimble/core/data/_dataHelpers.py | 15 +++++++++++++++
 nimble/core/data/base.py         | 13 ++++---------
 nimble/core/data/sparse.py       | 10 +++-------
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 90b1f0d..4b040f0 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1175,6 +1175,21 @@ def modifyNumpyArrayValue(arr, index, newVal):
 
     return arr
 
+def limitObjectDtype(arr):
+    """
+    Convert an object array to the narrowest of the bool, int or float dtypes
+    able to represent every value. Non-numeric arrays are not modified.
+    """
+    types = set(map(type, arr.flat))
+    if not types:
+        return arr.astype(np.float64)
+    if all(issubclass(t, (bool, np.bool_)) for t in types):
+        return arr.astype(np.bool_)
+    if all(issubclass(t, (int, float, np.bool_, np.integer,
+                                    np.floating)) for t in types):
+        return np.array(arr.tolist())
+    return arr
+
 def getFeatureDtypes(obj):
     """
     Get a dtype for each feature in the object.
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 44db609..e8221b4 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -50,7 +50,7 @@ from nimble._utility import tableString, prettyListString, quoteStrings
 from nimble._utility import _getStatsFunction, acceptedStats
 from .stretch import Stretch
 from ._dataHelpers import formatIfNeeded, validateInputString
-from ._dataHelpers import constructIndicesList
+from ._dataHelpers import constructIndicesList, limitObjectDtype
 from ._dataHelpers import createListOfDict, createDictOfList
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
@@ -1090,7 +1090,8 @@ class Base(ABC):
             optType = self.getTypeString()
         # Use vectorized for functions with oneArg
         if calculator.oneArg:
-            vectorized = np.vectorize(calculator)
+            # otherwise numpy determines the output type from the first output
+            vectorized = np.vectorize(calculator, otypes=[np.object_])
             values = self._calculate_implementation(
                 vectorized, points, features, preserveZeros)
 
@@ -1137,13 +1138,7 @@ class Base(ABC):
         toCalculate = self.copy(to='numpyarray')
         # array with only desired points and features
         toCalculate = toCalculate[points[:, None], features]
-        try:
-            return function(toCalculate)
-        except Exception: # pylint: disable=broad-except
-            # change output type of vectorized function to object to handle
-            # nonnumeric data
-            function.otypes = [np.object_]
-            return function(toCalculate)
+        return limitObjectDtype(function(toCalculate))
 
     @limitedTo2D
     def countElements(self, condition):
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index dc4b542..2ab85d3 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -39,7 +39,7 @@ from .sparseAxis import SparsePoints, SparsePointsView
 from .sparseAxis import SparseFeatures, SparseFeaturesView
 from .stretch import StretchSparse
 from ._dataHelpers import allDataIdentical
-from ._dataHelpers import createDataNoValidation
+from ._dataHelpers import createDataNoValidation, limitObjectDtype
 from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
@@ -211,11 +211,7 @@ class Sparse(Base):
             preserveZeros = False
         # all data
         if preserveZeros and points is None and features is None:
-            try:
-                data = function(data)
-            except Exception: # pylint: disable=broad-except
-                function.otypes = [np.object_]
-                data = function(data)
+            data = limitObjectDtype(function(data))
             shape = self._data.shape
             values = scipy.sparse.coo_matrix((data, (row, col)), shape=shape)
             # note: even if function transforms nonzero values into zeros
@@ -231,7 +227,7 @@ class Sparse(Base):
                     rowSubset.append(row[idx])
                     colSubset.append(col[idx])
                     dataSubset.append(val)
-            dataSubset = function(dataSubset)
+            dataSubset = limitObjectDtype(function(dataSubset))
             values = scipy.sparse.coo_matrix((dataSubset,
                                               (rowSubset, colSubset)))
             # note: even if function transforms nonzero values into zeros
-- 
2.43.0


From 4bf5c919a31f2402084e7ddf0ad3fde9418f8afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 015/220] fix: Sparse calculateOnElements with preserveZeros on
 a subset

---
 nimble/core/data/sparse.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 2ab85d3..34125d5 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -219,17 +219,24 @@ class Sparse(Base):
             return values
         # subset of data
         if preserveZeros:
+            if points is None:
+                points = range(len(self.points))
+            if features is None:
+                features = range(len(self.features))
+            newRow = {pID: i for i, pID in enumerate(points)}
+            newCol = {fID: i for i, fID in enumerate(features)}
             dataSubset = []
             rowSubset = []
             colSubset = []
             for idx, val in enumerate(data):
-                if row[idx] in points and col[idx] in features:
-                    rowSubset.append(row[idx])
-                    colSubset.append(col[idx])
+                if row[idx] in newRow and col[idx] in newCol:
+                    rowSubset.append(newRow[row[idx]])
+                    colSubset.append(newCol[col[idx]])
                     dataSubset.append(val)
             dataSubset = limitObjectDtype(function(dataSubset))
-            values = scipy.sparse.coo_matrix((dataSubset,
-                                              (rowSubset, colSubset)))
+            values = scipy.sparse.coo_matrix(
+                (dataSubset, (rowSubset, colSubset)),
+                shape=(len(points), len(features)))
             # note: even if function transforms nonzero values into zeros
             # our init methods will filter them out from the data attribute
             return values
-- 
2.43.0


From c942a9308a8c6f40b7528817ecaeddc155bfc983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 016/220] fix: feature query strings on an object with a single
 point

---
 nimble/core/data/axis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index dff7cd5..9d74f31 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1129,6 +1129,10 @@ class Axis(ABC):
         if not self._base._getAxis(offAxis)._hasName(query.identifier):
             msg = f"the {offAxis} '{query.identifier}' does not exist"
             raise InvalidArgumentValue(msg)
+        if len(self._base._getAxis(offAxis)) == 1:
+            # single element views are always indexed by feature identifier,
+            # so the name of the point would not be found
+            query.identifier = 0
 
         return query
 
-- 
2.43.0


From 022f1aeb0366c805ec14708be48d2a4c212ca6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 017/220] fix: countUniqueElements of a single point and
 feature, and of bool Sparse zeros

---
 nimble/core/data/_dataHelpers.py | 7 ++++++-
 nimble/core/data/sparse.py       | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 4b040f0..76fc520 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -454,6 +454,11 @@ def createDataNoValidation(returnType, data, pointNames=None,
 def _limitAndConvertToArray(obj, points, features):
     if points is None and features is None:
         return obj.copy(to='numpyarray')
+    # lists, because a single point and feature would provide an element
+    if points is not None:
+        points = constructIndicesList(obj, 'point', points)
+    if features is not None:
+        features = constructIndicesList(obj, 'feature', features)
     pWanted = points if points is not None else slice(None)
     fWanted = features if features is not None else slice(None)
     limited = obj[pWanted, fWanted]
@@ -492,7 +497,7 @@ def denseCountUnique(obj, points=None, features=None):
             nextIdx[0] += 1
             return mapping[val]
 
-        vectorMap = np.vectorize(mapper)
+        vectorMap = np.vectorize(mapper, otypes=[np.int_])
         array = vectorMap(array)
         intMap = {v: k for k, v in mapping.items()}
         vals, counts = np.unique(array, return_counts=True)
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 34125d5..3e6db73 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -44,6 +44,7 @@ from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
+from ._dataHelpers import constructIndicesList
 from ._dataHelpers import isValid2DObject
 from ._dataHelpers import validateAxis
 
@@ -249,6 +250,12 @@ class Sparse(Base):
         if points is None and features is None and not isView:
             source = self
         else:
+            # lists, because a single point and feature would provide an
+            # element
+            if points is not None:
+                points = constructIndicesList(self, 'point', points)
+            if features is not None:
+                features = constructIndicesList(self, 'feature', features)
             pWanted = points if points is not None else slice(None)
             fWanted = features if features is not None else slice(None)
             source = self[pWanted, fWanted]
-- 
2.43.0


From bed2e53355361375a71489327f5390e2ee0048da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 018/220] fix: inserting a view of Sparse data inserts its
 values

---
 nimble/core/data/sparseAxis.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index e71e67c..51213a7 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -130,20 +130,22 @@ class SparseAxis(Axis, metaclass=ABCMeta):
         points/features.
         """
         selfData = self._base._data.data
-        addData = toInsert._data.data
+        # the data attribute of a view is not reliable
+        toInsertData = toInsert._getSparseData()
+        addData = toInsertData.data
         newData = np.concatenate((selfData, addData))
         if self._isPoint:
             selfAxis = self._base._data.row.copy()
             selfOffAxis = self._base._data.col
-            addAxis = toInsert._data.row.copy()
-            addOffAxis = toInsert._data.col
+            addAxis = toInsertData.row.copy()
+            addOffAxis = toInsertData.col
             addLength = len(toInsert.points)
             shape = (len(self) + addLength, len(self._base.features))
         else:
             selfAxis = self._base._data.col.copy()
             selfOffAxis = self._base._data.row
-            addAxis = toInsert._data.col.copy()
-            addOffAxis = toInsert._data.row
+            addAxis = toInsertData.col.copy()
+            addOffAxis = toInsertData.row
             addLength = len(toInsert.features)
             shape = (len(self._base.points), len(self) + addLength)
 
-- 
2.43.0


From 30e1cf91a5b01d98ebc5eecab50ffe837f9c1ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 019/220] fix: replaceRectangle with a view of Sparse data uses
 its values

---
 nimble/core/data/sparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 3e6db73..829ed58 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -427,6 +427,9 @@ class Sparse(Base):
                     pointStart, featureStart, pointEnd, featureEnd)
                 return
         else:
+            if isinstance(replaceWith, BaseView):
+                # the data attribute of a view is not reliable
+                replaceWith = replaceWith.copy()
             replaceWith._sortInternal('point')
 
         # the modified data must be able to hold the new values
-- 
2.43.0


From 3c8e0c713f97875eb5b4ace10ee261cdfa67bacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 020/220] fix: a view of a view resolves names and negative
 indices in the view

---
 nimble/core/data/views.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/views.py b/nimble/core/data/views.py
index 4e36deb..883a519 100644
--- a/nimble/core/data/views.py
+++ b/nimble/core/data/views.py
@@ -119,25 +119,25 @@ class BaseView(Base, metaclass=ABCMeta):
         if pointStart is None:
             psAdj = None if len(self._source.points) == 0 else self._pStart
         else:
-            psIndex = self._source.points.getIndex(pointStart)
+            psIndex = self.points.getIndex(pointStart)
             psAdj = psIndex + self._pStart
 
         if pointEnd is None:
             peAdj = None if len(self._source.points) == 0 else self._pEnd - 1
         else:
-            peIndex = self._source.points.getIndex(pointEnd)
+            peIndex = self.points.getIndex(pointEnd)
             peAdj = peIndex + self._pStart
 
         if featureStart is None:
             fsAdj = None if len(self._source.features) == 0 else self._fStart
         else:
-            fsIndex = self._source.features.getIndex(featureStart)
+            fsIndex = self.features.getIndex(featureStart)
             fsAdj = fsIndex + self._fStart
 
         if featureEnd is None:
             feAdj = None if len(self._source.features) == 0 else self._fEnd - 1
         else:
-            feIndex = self._source.features.getIndex(featureEnd)
+            feIndex = self.features.getIndex(featureEnd)
             feAdj = feIndex + self._fStart
 
         return self._source._view_backend(psAdj, peAdj, fsAdj, feAdj,
-- 
2.43.0


From fe51d8a077aa4285d286ad1031545c65d66bdd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 021/220] fix: views reject item assignment

---
 nimble/core/data/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/views.py b/nimble/core/data/views.py
index 883a519..d5be9e3 100644
--- a/nimble/core/data/views.py
+++ b/nimble/core/data/views.py
@@ -231,6 +231,10 @@ class BaseView(Base, metaclass=ABCMeta):
     ###############################################################
     ###############################################################
 
+    @baseExceptionDoc
+    def __setitem__(self, key, value):
+        readOnlyException("__setitem__")
+
     @baseExceptionDoc
     def __imatmul__(self, other):
         readOnlyException("__imatmul__")
-- 
2.43.0


From 9a32fa8cf0478fe5b52c36478a465511a5dea7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 022/220] fix: replaceRectangle rejects a replacement extending
 beyond the object

---
 nimble/core/data/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index e8221b4..43a3f60 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3977,6 +3977,10 @@ class Base(ABC):
                         axis='feature', axisLen=len(replaceWith.features),
                         start=featureStart, end=featureEnd, rangeLen=frange)
                     raise InvalidArgumentValueCombination(msg)
+            if (peIndex >= len(self.points) or feIndex >= len(self.features)):
+                msg = "The values in replaceWith extend beyond the bounds of "
+                msg += "this object"
+                raise InvalidArgumentValueCombination(msg)
             if replaceWith.getTypeString() != self.getTypeString():
                 replaceWith = replaceWith.copy(to=self.getTypeString())
         elif looksNumeric(replaceWith):
-- 
2.43.0


From 3b5fd197c7ff2a8c7480148c7eceacaf964005d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 023/220] fix: setNames of several oldIdentifiers rejects
 duplicates and removes every name set to None

---
 nimble/core/data/axis.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 9d74f31..258fedc 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -288,10 +288,19 @@ class Axis(ABC):
                         oldName = self.namesInverse[index]
                     oldNames.append(oldName)
 
+                if len(set(indices)) != len(indices):
+                    msg = "Each name to replace can only be identified once"
+                    raise InvalidArgumentValue(msg)
+                newNames = [n for n in assignments if n is not None]
+                for i, name in enumerate(newNames):
+                    if name in newNames[:i]:
+                        msg = "Cannot input duplicate names: " + str(name)
+                        raise InvalidArgumentValue(msg)
+
                 old_dict = dict(zip(oldNames,indices))
-                assignments_dict = dict(zip(assignments, indices))
+                newAssignments = list(zip(assignments, indices))
                  # iterate through list of assignments, // how do you match this with old identifiers?
-                for name, index in assignments_dict.items():
+                for name, index in newAssignments:
                     # verifying that none of the new assignments is used previously
                     if name in self.names:
                         if self.namesInverse[index] == name:
@@ -305,7 +314,7 @@ class Axis(ABC):
                 for name, index in old_dict.items():
                     if name is not None:
                         del self.names[name]
-                for name, index in assignments_dict.items():
+                for name, index in newAssignments:
                     self.namesInverse[index] = name
                     if name is not None:
                         self.names[name] = index
-- 
2.43.0


From 0f82c0496201c99327ac8a28045792ecb3dc4da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 024/220] fix: copying high dimension data to a numpy array
 does not share memory

---
 nimble/core/data/dataframe.py | 2 --
 nimble/core/data/matrix.py    | 5 +++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index e4b15e7..7292fac 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -228,8 +228,6 @@ class DataFrame(Base):
                 arr = arr.reshape(self._dims)
             if to == 'pythonlist':
                 return arr.tolist()
-            if needsReshape:
-                return arr
             return arr.copy()
 
         if needsReshape:
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 2cc0939..119c7ed 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -188,9 +188,10 @@ class Matrix(Base):
             return self._data.tolist()
         needsReshape = len(self._dims) > 2
         if to == 'numpyarray':
+            ret = self._data.copy()
             if needsReshape:
-                return self._data.reshape(self._dims)
-            return self._data.copy()
+                return ret.reshape(self._dims)
+            return ret
         if needsReshape:
             data = np.empty(self._dims[:2], dtype=np.object_)
             for i in range(self.shape[0]):
-- 
2.43.0


From 8c2158bb39364f4ba5533f17d9a5ddd9f2a1582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 025/220] fix: stretched operations do not convert the types of
 their operands in place

---
 nimble/core/data/stretch.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nimble/core/data/stretch.py b/nimble/core/data/stretch.py
index 4436d40..fba52a3 100644
--- a/nimble/core/data/stretch.py
+++ b/nimble/core/data/stretch.py
@@ -184,6 +184,18 @@ class Stretch(object):
                 self._source._validateDivMod(opName, other)
 
     def _stretchArithmetic(self, opName, other):
+        # any type conversions must not be applied to the original objects
+        if isinstance(other, (Stretch, nimble.core.data.Base)):
+            lhs = self._source.copy().stretch
+            if isinstance(other, Stretch):
+                rhs = other._source.copy().stretch
+            else:
+                rhs = other.copy()
+            return lhs._stretchArithmetic_backend(opName, rhs)
+
+        return self._stretchArithmetic_backend(opName, other)
+
+    def _stretchArithmetic_backend(self, opName, other):
         conversionKwargs = {}
         if 'pow' in opName:
             conversionKwargs['allowInt'] = False
-- 
2.43.0


From 8772648c0e54937705ab8ab24750b93ffde62751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 026/220] fix: saving a DataFrame as csv does not relabel the
 stored data

---
 nimble/core/data/dataframe.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 7292fac..785a99b 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -157,22 +157,19 @@ class DataFrame(Base):
         Function to write the data in this object to a CSV file at the
         designated path.
         """
+        # the labels of the stored data do not change, even if writing fails
+        data = self._data.copy(deep=False)
         with open(outPath, 'w', encoding='utf-8') as outFile:
             if includeFeatureNames:
-                self._data.columns = self.features.getNames()
+                data.columns = self.features.getNames()
                 if includePointNames:
                     outFile.write('pointNames')
 
             if includePointNames:
-                self._data.index = self.points.getNames()
+                data.index = self.points.getNames()
 
-        self._data.to_csv(outPath, mode='a', index=includePointNames,
-                          header=includeFeatureNames)
-
-        if includePointNames:
-            self._data.index = pd.RangeIndex(len(self._data.index))
-        if includeFeatureNames:
-            self._data.columns = pd.RangeIndex(len(self._data.columns))
+        data.to_csv(outPath, mode='a', index=includePointNames,
+                    header=includeFeatureNames)
 
     def _saveMTX_implementation(self, outPath, includePointNames,
                                 includeFeatureNames):
-- 
2.43.0


From d8d4171b4c8a978db0460f4bea7738798c137a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 027/220] fix: saving to hdf does not convert the types of the
 object

---
 nimble/core/data/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 43a3f60..d17936a 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1928,6 +1928,7 @@ class Base(ABC):
             userblockSize = 0
         with h5py.File(outPath, 'w', userblock_size=userblockSize) as hdf:
             for name, point in zip(pnames, self.points):
+                point = point.copy() # do not convert this object's data
                 point._convertToNumericTypes()
                 asArray = point.copy('numpy array')
                 _ = hdf.create_dataset(name, data=asArray)
-- 
2.43.0


From f72f3f3711a6c07ef48c9d0610b2c739fac7bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 028/220] fix: plot does not convert the types of the object

---
 nimble/core/data/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index d17936a..da589d8 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2907,13 +2907,14 @@ class Base(ABC):
     @pyplotRequired
     def _plot(self, includeColorbar, outPath, show, title, xAxisLabel,
               yAxisLabel, **kwargs):
-        self._convertToNumericTypes(allowBool=False)
+        toPlot = self.copy() # the types of this object must not change
+        toPlot._convertToNumericTypes(allowBool=False)
 
         if 'cmap' not in kwargs:
             kwargs['cmap'] = "gray"
 
         # matshow generates a new figure b/c existing axes are an issue.
-        plt.matshow(self.copy('numpyarray'), **kwargs)
+        plt.matshow(toPlot.copy('numpyarray'), **kwargs)
 
         if includeColorbar:
             plt.colorbar()
-- 
2.43.0


From 30d4e476d48548e05cba41b79cc12d0021ab239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 029/220] fix: matrix multiplication does not convert the types
 of its operands

---
 nimble/core/data/base.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index da589d8..b81f63c 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4917,21 +4917,26 @@ class Base(ABC):
             msg += "empty"
             raise ImproperObjectAction(msg)
 
+        # any type conversions must not be applied to the original objects
         try:
-            self._convertToNumericTypes()
-        except ImproperObjectAction:
+            left = self.copy()
+            left._convertToNumericTypes()
+        except (ImproperObjectAction, ValueError):
             self._numericValidation()
+            left = self
         try:
-            other._convertToNumericTypes()
-        except ImproperObjectAction:
+            right = other.copy()
+            right._convertToNumericTypes()
+        except (ImproperObjectAction, ValueError):
             other._numericValidation(right=True)
+            right = other
 
         if opName.startswith('__r'):
-            caller = other
-            callee = self
+            caller = right
+            callee = left
         else:
-            caller = self
-            callee = other
+            caller = left
+            callee = right
 
         if len(caller.features) != len(callee.points):
             msg = "The number of features in the left hand object must "
-- 
2.43.0


From 21a31d81fc27d3a4740ac63079afa9250467085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 030/220] fix: views reflect value changes that replace the
 stored data of their source

---
 nimble/core/data/dataframe.py | 32 +++++++++++++++++---
 nimble/core/data/matrix.py    | 15 +++++++++
 nimble/core/data/sparse.py    | 57 +++++++++++++++++++++++++++++++++++
 3 files changed, 99 insertions(+), 5 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 785a99b..0c9ea3f 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -441,14 +441,12 @@ class DataFrame(Base):
         kwds['featureStart'] = featureStart
         kwds['featureEnd'] = featureEnd
 
-        ret = DataFrameView(**kwds)
-
         # Reassign labels as to match the positions in the view object,
         # not the positions in the source object.
-        ret._data.index = pd.RangeIndex(pRange)
-        ret._data.columns = pd.RangeIndex(fRange)
+        kwds['data'].index = pd.RangeIndex(pRange)
+        kwds['data'].columns = pd.RangeIndex(fRange)
 
-        return ret
+        return DataFrameView(**kwds)
 
     def _createNestedObject(self, pointIndex):
         """
@@ -604,6 +602,30 @@ class DataFrameView(BaseView, DataFrame):
     Read only access to a DataFrame object.
     """
 
+    @property
+    def _data(self):
+        # changing values can replace the columns of the source, even though
+        # it remains the same DataFrame object
+        data = self._source._data
+        if data.shape == self._sourceShape:
+            self._data = data.iloc[self._pStart:self._pEnd,
+                                   self._fStart:self._fEnd]
+            # labels match the positions in the view, not in the source
+            self._window.index = pd.RangeIndex(self._window.shape[0])
+            self._window.columns = pd.RangeIndex(self._window.shape[1])
+        return self._window
+
+    @_data.setter
+    def _data(self, window):
+        self._window = window
+        self._sourceShape = self._source._data.shape
+
+    def _getitem_implementation(self, x, y):
+        data = self._source._data
+        if data.shape == self._sourceShape:
+            return data.iat[x + self._pStart, y + self._fStart]
+        return self._window.iat[x, y]
+
     def _getPoints(self, names):
         return DataFramePointsView(self, names)
 
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 119c7ed..25d811b 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -508,6 +508,21 @@ class MatrixView(BaseView, Matrix):
     Read only access to a Matrix object.
     """
 
+    @property
+    def _data(self):
+        # changing values can replace the array of the source
+        data = self._source._data
+        if (data is not self._sourceData
+                and data.shape == self._sourceData.shape):
+            self._data = data[self._pStart:self._pEnd,
+                              self._fStart:self._fEnd]
+        return self._window
+
+    @_data.setter
+    def _data(self, window):
+        self._window = window
+        self._sourceData = self._source._data
+
     def _getPoints(self, names):
         return MatrixPointsView(self, names)
 
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 829ed58..79743e1 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -1326,6 +1326,63 @@ class SparseVectorView(BaseView, Sparse):
     feature.
     """
 
+    @property
+    def _data(self):
+        # The window holds slices of the arrays in the source, these only
+        # show the values of the source while it still uses the same arrays.
+        source = self._source
+        if (self._sourceArray is not source._data.data
+                and source._data.shape == self._sourceShape
+                and len(source._dims) == 2):
+            axis = 'point' if self._pEnd - self._pStart == 1 else 'feature'
+            if source._sorted['axis'] in (axis, None):
+                self._data = source._view_implementation(
+                    self._pStart, self._pEnd, self._fStart, self._fEnd,
+                    False)._window
+            else:
+                data = source._data
+                keep = ((data.row >= self._pStart) & (data.row < self._pEnd)
+                        & (data.col >= self._fStart)
+                        & (data.col < self._fEnd))
+                self._data = Sparse._cooMatrixSkipCheck(
+                    (data.data[keep], (data.row[keep] - self._pStart,
+                                       data.col[keep] - self._fStart)),
+                    shape=self._window.shape, copy=False)
+                # these are not slices, cannot show later changes
+                self._sourceArray = None
+        return self._window
+
+    @_data.setter
+    def _data(self, window):
+        self._window = window
+        self._sourceArray = self._source._data.data
+        self._sourceShape = self._source._data.shape
+        self._sorted = {'axis': None, 'indices': None}
+
+    def _getitem_implementation(self, x, y):
+        source = self._source
+        if source._data.shape == self._sourceShape and len(source._dims) == 2:
+            return source._getitem_implementation(x + self._pStart,
+                                                  y + self._fStart)
+        return super()._getitem_implementation(x, y)
+
+    def _sortInternal(self, axis, setIndices=False, forceSort=False):
+        if 1 in self._data.shape and len(self._source._dims) == 2:
+            # the values of a single point or feature are already in order
+            # and sorting would separate them from the source
+            validateAxis(axis)
+            if self._sorted['axis'] != axis:
+                self._sorted['axis'] = axis
+                self._sorted['indices'] = None
+            if setIndices and self._sorted['indices'] is None:
+                sortedAxis = (self._data.row if axis == 'point'
+                              else self._data.col)
+                length = len(self._getAxis(axis))
+                self._sorted['indices'] = np.searchsorted(sortedAxis,
+                                                          range(length + 1))
+        else:
+            super()._sortInternal(axis, setIndices, forceSort)
+
     def _getPoints(self, names):
         return SparsePointsView(self, names)
 
-- 
2.43.0


From 122abff6d3fe4e126d24acf3cc64f6048bcfe48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 031/220] fix: numeric checks and containsZero do not depend on
 the representation

---
 nimble/core/data/base.py | 46 +++++++++++++++++-----------------------
 nimble/core/data/list.py | 11 ++++------
 2 files changed, 23 insertions(+), 34 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index b81f63c..3661c70 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -89,40 +89,32 @@ def hashCodeFunc(elementValue, pointNum, featureNum):
     """
     return ((math.sin(pointNum) + math.cos(featureNum)) / 2.0) * elementValue
 
-def checkNumericListType(listData):
+def allNumeric(values):
     '''
-    Function dedicated to seeing if list of lists that make up
-    base._data contains entirely numeric data or not.
+    Function dedicated to seeing if a sequence of values contains entirely
+    numeric data or not.
     '''
-    if isinstance(listData, list):
-      for item in listData:
-        if isinstance(item, list):
-            if not all(isinstance(sub_item, (int, float)) for sub_item in item):
-                return False
-        else:
-            if not isinstance(item, (int, float)):
-                return False
-      return True
-    return False
+    return all(isinstance(val, (numbers.Number, np.number, np.bool_))
+               for val in values)
 
 def isNumeric(base):
     '''
     Helper for certain stats methods to know if feature columns contain invalid
-    values.
+    values. The answer depends on the values, not on how they are stored: an
+    object dtype or a view of lists can also hold nothing but numbers.
     '''
-    def is_numeric_column(column):
-        return pd.api.types.is_numeric_dtype(column)
-
-    if pd.nimbleAccessible() and isinstance(base._data, pd.DataFrame):
-        return all(is_numeric_column(column) for column in base._data.dtypes)
-    elif isinstance(base._data, np.ndarray):
-        return np.issubdtype(base._data.dtype, np.number)
-    elif isinstance(base._data, coo_matrix):
-        return base._data.dtype.kind in 'ifc'
-    elif isinstance(base._data, list):
-        return checkNumericListType(base._data)
-    else:
-        raise ValueError("Unsupported data type")
+    data = base._data
+    if pd.nimbleAccessible() and isinstance(data, pd.DataFrame):
+        return all(pd.api.types.is_numeric_dtype(dtype)
+                   or (dtype == object and allNumeric(data.iloc[:, i]))
+                   for i, dtype in enumerate(data.dtypes))
+    if isinstance(data, (np.ndarray, coo_matrix)):
+        if data.dtype != object:
+            return data.dtype.kind in 'biufc'
+        values = data if isinstance(data, np.ndarray) else data.data
+        return allNumeric(values.flat)
+
+    return all(allNumeric(point) for point in data)
 
 class Base(ABC):
     """
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 96fde34..d16ea3f 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -600,13 +600,10 @@ class List(Base):
         Returns True if there is a value that is equal to integer 0
         contained in this object. False otherwise
         """
-        for point in self.points:
-            if len(point._dims) == 2 and point._dims[0] == 1:
-                for val in point:
-                    if val == 0:
-                        return True
-            else:
-                return point.containsZero()
+        for point in self._data:
+            for val in point:
+                if val == 0:
+                    return True
         return False
 
 
-- 
2.43.0


From ad2cb679a65148ee78fd357252ee0561fd8f0509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 032/220] fix: the inverse of a Sparse object refuses a
 singular 1x1 object and non-finite values

---
 nimble/calculate/linalg.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nimble/calculate/linalg.py b/nimble/calculate/linalg.py
index 8d1bb0c..8228be6 100644
--- a/nimble/calculate/linalg.py
+++ b/nimble/calculate/linalg.py
@@ -108,6 +108,13 @@ def inverse(aObj):
     else:
         try:
             invObj = aObj.copy(to='scipy csc')
+            if not np.isfinite(invObj.data).all():
+                msg = 'Infs or NaNs values are not supported.'
+                raise InvalidArgumentValue(msg)
+            if invObj.shape == (1, 1) and not invObj.data.any():
+                # scipy does not raise an exception for this shape
+                msg = 'Object non-invertible (Singular)'
+                raise InvalidArgumentValue(msg)
             invData = scipy.sparse.linalg.inv(invObj)
         except RuntimeError as exception:
             _handleSingularCase(exception)
-- 
2.43.0


From 454fa2f13b0ebf8a3d2b7de192e14b3efcc9745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 033/220] fix: zeros of a Sparse feature have their own binary
 feature and are all counted

---
 nimble/core/data/sparse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 79743e1..117225a 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -263,7 +263,8 @@ class Sparse(Base):
         totalValues = (len(source.points) * len(source.features))
         numZeros = totalValues - len(source._data.data)
         if numZeros > 0:
-            uniqueCount[0] = numZeros
+            # the data can also contain explicit zeros
+            uniqueCount[0] = uniqueCount.get(0, 0) + numZeros
         return uniqueCount
 
     def _transpose_implementation(self):
@@ -806,7 +807,8 @@ class Sparse(Base):
         binaryRow = []
         binaryCol = []
         binaryData = []
-        for ptIdx, val in zip(self._data.row, self._data.data):
+        values = self.copy('numpyarray').flatten()
+        for ptIdx, val in enumerate(values):
             ftIdx = uniqueIdx[val]
             binaryRow.append(ptIdx)
             binaryCol.append(ftIdx)
-- 
2.43.0


From 3674e8a89861ee81f74e23a6171eebf2b4c0d82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 034/220] fix: modulo of Sparse objects pairs the values of the
 same location

---
 nimble/core/data/sparse.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 117225a..0a16ed1 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -1207,23 +1207,19 @@ class Sparse(Base):
         """
         Uses np.mod on the nonzero values in the coo matrix.
 
-        Since 0 % any value is 0, the zero values can be ignored for
-        this operation.
+        Since 0 % any value is 0, the zero values of the dividend can be
+        ignored for this operation. The divisor is known not to contain
+        zeros, but each of its values must be paired with the value of
+        the dividend in the same location.
         """
-        sortedAxis = self._sorted['axis']
-        sort = sortedAxis if sortedAxis is not None else 'point'
-        self._sortInternal(sort)
-        selfData = self._getSparseData()
         if not isinstance(other, Sparse):
             other = other.copy('Sparse')
-        other._sortInternal(sort)
-        otherData = other._getSparseData()
+        dividend, divisor = self._getSparseData(), other._getSparseData()
         if opName == '__rmod__':
-            ret = np.mod(otherData.data, selfData.data)
-        else:
-            ret = np.mod(selfData.data, otherData.data)
-        coo = scipy.sparse.coo_matrix((ret, (selfData.row, selfData.col)),
-                                      shape=self.shape)
+            dividend, divisor = divisor, dividend
+        row, col = dividend.row, dividend.col
+        ret = np.mod(dividend.data, divisor.toarray()[row, col])
+        coo = scipy.sparse.coo_matrix((ret, (row, col)), shape=self.shape)
         coo.eliminate_zeros() # remove any zeros introduced into data
 
         return Sparse(coo)
-- 
2.43.0


From be9681a5521a7c4ff69491916ea7dff25a25d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 035/220] fix: combineByExpandingFeatures positions and missing
 combinations

---
 nimble/core/data/_dataHelpers.py  |  5 ++++-
 nimble/core/data/dataframeAxis.py | 13 +++++++++----
 nimble/core/data/listAxis.py      |  2 +-
 nimble/core/data/matrixAxis.py    |  2 +-
 nimble/core/data/points.py        |  2 ++
 nimble/core/data/sparseAxis.py    |  2 ++
 6 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 76fc520..8aaa293 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -353,12 +353,15 @@ def fillArrayWithCollapsedFeatures(featuresToCollapse, retainData,
     return fill
 
 def fillArrayWithExpandedFeatures(uniqueDict, namesIdx, uniqueNames,
-                                  numRetFeatures, numExpanded):
+                                  numRetFeatures, valuesIdx):
     """
     Helper function for modifying the underlying data for
     combinePointsByExpandingFeatures. Used in all non-sparse
     implementations.
     """
+    numExpanded = len(valuesIdx)
+    # the points do not contain the value features
+    namesIdx -= sum(idx < namesIdx for idx in valuesIdx)
     fill = np.empty(shape=(len(uniqueDict), numRetFeatures), dtype=np.object_)
 
     endSlice = slice(namesIdx + (len(uniqueNames) * numExpanded), None)
diff --git a/nimble/core/data/dataframeAxis.py b/nimble/core/data/dataframeAxis.py
index 5074e0c..f307c9f 100644
--- a/nimble/core/data/dataframeAxis.py
+++ b/nimble/core/data/dataframeAxis.py
@@ -230,21 +230,26 @@ class DataFramePoints(DataFrameAxis, Points):
 
     def _combineByExpandingFeatures_implementation(
         self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
-        uncombined = [dtype for i, dtype in self._base._data.dtypes.items()
+        uncombined = [dtype for i, dtype in enumerate(self._base._data.dtypes)
                       if i not in valuesIdx + [namesIdx]]
         combined = list(self._base._data.dtypes.iloc[valuesIdx])
-        dtypes = (uncombined[:namesIdx]
+        insert = namesIdx - sum(idx < namesIdx for idx in valuesIdx)
+        dtypes = (uncombined[:insert]
                   + combined * len(uniqueNames)
-                  + uncombined[namesIdx:])
+                  + uncombined[insert:])
 
         tmpData = fillArrayWithExpandedFeatures(uniqueDict, namesIdx,
                                                 uniqueNames, numRetFeatures,
-                                                len(valuesIdx))
+                                                valuesIdx)
 
         self._base._data = pd.DataFrame(tmpData)
         if tuple(self._base._data.dtypes) != tuple(dtypes):
             for (i, col), dtype in zip(self._base._data.items(), dtypes):
                 if col.dtype !=  dtype:
+                    if dtype.kind in 'biu' and col.isna().any():
+                        # combinations without a value are now missing
+                        dtype = np.dtype(object if dtype.kind == 'b'
+                                         else float)
                     self._base._data[i] = col.astype(dtype)
 
 
diff --git a/nimble/core/data/listAxis.py b/nimble/core/data/listAxis.py
index c27894f..9e46724 100644
--- a/nimble/core/data/listAxis.py
+++ b/nimble/core/data/listAxis.py
@@ -234,7 +234,7 @@ class ListPoints(ListAxis, Points):
         self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
         tmpData = fillArrayWithExpandedFeatures(uniqueDict, namesIdx,
                                                 uniqueNames, numRetFeatures,
-                                                len(valuesIdx))
+                                                valuesIdx)
 
         self._base._data = tmpData.tolist()
         self._base._numFeatures = numRetFeatures
diff --git a/nimble/core/data/matrixAxis.py b/nimble/core/data/matrixAxis.py
index 4b3c33a..8ded0f7 100644
--- a/nimble/core/data/matrixAxis.py
+++ b/nimble/core/data/matrixAxis.py
@@ -211,7 +211,7 @@ class MatrixPoints(MatrixAxis, Points):
         self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
         tmpData = fillArrayWithExpandedFeatures(uniqueDict, namesIdx,
                                                 uniqueNames, numRetFeatures,
-                                                len(valuesIdx))
+                                                valuesIdx)
 
         self._base._data = numpy2DArray(tmpData)
 
diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index 64b8f6c..f741f2e 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -2178,6 +2178,8 @@ class Points(ABC):
 
         self._combineByExpandingFeatures_implementation(
             unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures)
+        # value features that preceded the names feature are now removed
+        namesIdx -= sum(idx < namesIdx for idx in valuesIdx)
 
         self._base._dims = [len(unique), numRetFeatures]
 
diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index 51213a7..6228096 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -432,6 +432,8 @@ class SparsePoints(SparseAxis, Points):
         tmpCol = []
         numExpanded = len(valuesIdx)
         numNewFts = len(uniqueNames) * numExpanded
+        # the points do not contain the value features
+        namesIdx -= sum(idx < namesIdx for idx in valuesIdx)
         for idx, point in enumerate(uniqueDict):
             tmpPoint = list(point[:namesIdx])
             for name in uniqueNames:
-- 
2.43.0


From c6e1ec8d08517d7144ecd49886e378548997a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 036/220] fix: splitByCollapsingFeatures values, types and
 names

---
 nimble/core/data/_dataHelpers.py  |  5 ++++-
 nimble/core/data/dataframeAxis.py | 17 ++++++++-------
 nimble/core/data/listAxis.py      |  3 ++-
 nimble/core/data/points.py        | 15 +++++++++----
 nimble/core/data/sparseAxis.py    | 35 ++++++++++++-------------------
 5 files changed, 40 insertions(+), 35 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 8aaa293..5ca2589 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -341,10 +341,13 @@ def fillArrayWithCollapsedFeatures(featuresToCollapse, retainData,
     implementations.
     """
     fill = np.empty((numRetPoints, numRetFeatures), dtype=np.object_)
+    # object dtype prevents mixed types from being converted to strings
+    retainData = np.array(retainData, dtype=np.object_)
     fill[:, :-2] = np.repeat(retainData, len(featuresToCollapse), axis=0)
 
     # stack feature names repeatedly to create new feature
-    namesAsFeature = np.tile(currFtNames, (1, currNumPoints))
+    namesAsFeature = np.tile(np.array(currFtNames, dtype=np.object_),
+                             (1, currNumPoints))
     fill[:, -2] = namesAsFeature
     # flatten values by row then reshape into new feature
     valuesAsFeature = collapseData.flatten()
diff --git a/nimble/core/data/dataframeAxis.py b/nimble/core/data/dataframeAxis.py
index f307c9f..95b0b6e 100644
--- a/nimble/core/data/dataframeAxis.py
+++ b/nimble/core/data/dataframeAxis.py
@@ -213,13 +213,16 @@ class DataFramePoints(DataFrameAxis, Points):
         collapseData = self._base._asNumpyArray()[:, collapseIndices]
         retainData = self._base._asNumpyArray()[:, retainIndices]
 
-        collapseDtypes = (np.dtype(object), max(self._base._data.dtypes))
-        dtypes = []
-        for i in range(len(self._base.features)):
-            if i in retainIndices:
-                dtypes.append(self._base._data.dtypes.iloc[i])
-            elif i == collapseIndices[0]:
-                dtypes.extend(collapseDtypes)
+        # the new features follow the retained features
+        dtypes = list(self._base._data.dtypes.iloc[retainIndices])
+        dtypes.append(np.dtype(object))
+        collapsed = set(self._base._data.dtypes.iloc[collapseIndices])
+        if len(collapsed) == 1:
+            dtypes.extend(collapsed)
+        elif all(dtype.kind in 'iuf' for dtype in collapsed):
+            dtypes.append(np.dtype(float))
+        else:
+            dtypes.append(np.dtype(object))
 
         tmpData = fillArrayWithCollapsedFeatures(
             featuresToCollapse, retainData, collapseData, currNumPoints,
diff --git a/nimble/core/data/listAxis.py b/nimble/core/data/listAxis.py
index 9e46724..9f3cfe1 100644
--- a/nimble/core/data/listAxis.py
+++ b/nimble/core/data/listAxis.py
@@ -224,7 +224,8 @@ class ListPoints(ListAxis, Points):
             retainData.append(retainFeatures)
 
         tmpData = fillArrayWithCollapsedFeatures(
-            featuresToCollapse, retainData, np.array(collapseData),
+            featuresToCollapse, retainData,
+            np.array(collapseData, dtype=np.object_),
             currNumPoints, currFtNames, numRetPoints, numRetFeatures)
 
         self._base._data = tmpData.tolist()
diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index f741f2e..09069f9 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -31,7 +31,7 @@ from abc import ABC, abstractmethod
 from collections import OrderedDict
 
 import nimble
-from nimble.exceptions import ImproperObjectAction
+from nimble.exceptions import ImproperObjectAction, InvalidArgumentValue
 from ._dataHelpers import limitedTo2D, prepLog
 
 class Points(ABC):
@@ -1988,20 +1988,27 @@ class Points(ABC):
 
         numRetPoints = len(self) * numCollapsed
         numRetFeatures = len(features) - numCollapsed + 2
+        # validate new feature names before modifying the object
+        ftNames = [features.getName(idx) for idx in retainIndices]
+        for newName in (featureForNames, featureForValues):
+            if newName is not None and newName in ftNames:
+                msg = f"The feature name '{newName}' cannot be used because "
+                msg += "it is the name of another feature"
+                raise InvalidArgumentValue(msg)
+            ftNames.append(newName)
 
         self._splitByCollapsingFeatures_implementation(
             featuresToCollapse, collapseIndices, retainIndices,
             currNumPoints, currFtNames, numRetPoints, numRetFeatures)
 
         self._base._dims = [numRetPoints, numRetFeatures]
-        ftNames = [features.getName(idx) for idx in retainIndices]
-        ftNames.extend([featureForNames, featureForValues])
         features.setNames(ftNames, useLog=False)
         if self._base.points._namesCreated():
             appendedPts = []
             for name in self.getNames():
                 for i in range(numCollapsed):
-                    appendedPts.append(f"{name}_{i}")
+                    appendedPts.append(None if name is None
+                                       else f"{name}_{i}")
             self.setNames(appendedPts, useLog=False)
 
 
diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index 6228096..db4c8e0 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -393,32 +393,23 @@ class SparsePoints(SparseAxis, Points):
     def _splitByCollapsingFeatures_implementation(
             self, featuresToCollapse, collapseIndices, retainIndices,
             currNumPoints, currFtNames, numRetPoints, numRetFeatures):
-        self._base._sortInternal(self._axis)
-        data = self._base._data.data
-        row = self._base._data.row
-        col = self._base._data.col
+        # the values are needed with their zeros because each one, zero or not,
+        # is associated with a feature name
+        data = self._base.copy('numpyarray')
+        numCollapsed = len(featuresToCollapse)
         tmpData = []
         tmpRow = []
         tmpCol = []
         for ptIdx in range(len(self)):
-            inRetain = [val in retainIndices for val in col]
-            inCollapse = [val in collapseIndices for val in col]
-            retainData = data[(row == ptIdx) & (inRetain)]
-            retainCol = col[(row == ptIdx) & (inRetain)]
-            collapseData = data[(row == ptIdx) & (inCollapse)]
-            sort = np.argsort(collapseIndices)
-            collapseData = collapseData[sort]
-            for idx, value in enumerate(collapseData):
-                tmpData.extend(retainData)
-                tmpRow.extend([ptIdx * len(featuresToCollapse) + idx]
-                              * len(retainData))
-                tmpCol.extend(list(range(len(retainCol))))
-                tmpData.append(currFtNames[idx])
-                tmpRow.append(ptIdx * len(featuresToCollapse) + idx)
-                tmpCol.append(numRetFeatures - 2)
-                tmpData.append(value)
-                tmpRow.append(ptIdx * len(featuresToCollapse) + idx)
-                tmpCol.append(numRetFeatures - 1)
+            for i, collapseIdx in enumerate(collapseIndices):
+                values = list(data[ptIdx, retainIndices])
+                values.extend([currFtNames[i], data[ptIdx, collapseIdx]])
+                for ftIdx, value in enumerate(values):
+                    if not isinstance(value, str) and value == 0:
+                        continue
+                    tmpData.append(value)
+                    tmpRow.append(ptIdx * numCollapsed + i)
+                    tmpCol.append(ftIdx)
 
         tmpData = np.array(tmpData, dtype=np.object_)
         self._base._data = scipy.sparse.coo_matrix(
-- 
2.43.0


From 331390e3aa1f62564d26311bcec59052088cfce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 037/220] fix: a zero of a Sparse object divided by a missing
 value is missing

---
 nimble/core/data/sparse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 0a16ed1..4beeb72 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -1060,6 +1060,13 @@ class Sparse(Base):
             return self._genericMul_implementation(opName, other)
         if 'pow' in opName:
             return self._genericPow_implementation(opName, other)
+        if (isinstance(other, Base) and ('div' in opName or 'mod' in opName)
+                and not opName.startswith('__i')):
+            # a zero divided by a missing value is missing, not zero
+            divisor = self if opName.startswith('__r') else other
+            if np.isnan(divisor.copy('numpyarray').astype(float)).any():
+                return self._defaultBinaryOperations_implementation(opName,
+                                                                    other)
         try:
             if isinstance(other, Base):
                 selfData = self._getSparseData()
-- 
2.43.0


From 2c07e5106345fb9a6ec917aea019c00982dc2447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 038/220] fix: merge refusals restore names, onFeature by index
 sorts by name, matching order

---
 nimble/core/data/axis.py |  5 +++--
 nimble/core/data/base.py | 17 ++++++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 258fedc..6a9b1b9 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1536,8 +1536,9 @@ class Axis(ABC):
             return matches
         allNames = self._getNames() + otherAxis.getNames()
         if len(set(allNames)) != len(allNames):
-            for name in self.names:
-                if name in otherAxis.names:
+            # in the order of this axis, default names never match
+            for name in self._getNames():
+                if name is not None and name in otherAxis.names:
                     matches.append(name)
         return matches
 
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 3661c70..670764c 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4573,6 +4573,11 @@ class Base(ABC):
             msg += "'intersection'"
             raise InvalidArgumentValue(msg)
 
+        # the index of this feature could be different after the merge
+        sortBy = onFeature
+        if onFeature is not None and not isinstance(onFeature, str):
+            sortBy = self.features.getName(onFeature)
+
         if point == 'strict' or feature == 'strict':
             self._genericStrictMerge_implementation(other, point, feature,
                                                     onFeature, force)
@@ -4580,8 +4585,8 @@ class Base(ABC):
             self._genericMergeFrontend(other, point, feature, onFeature)
         
         if point == 'union':
-            if onFeature:
-                self.points.sort(by=onFeature, useLog=False)
+            if onFeature is not None:
+                self.points.sort(by=sortBy, useLog=False)
         
             
     def _genericStrictMerge_implementation(self, other, point, feature,
@@ -4659,6 +4664,7 @@ class Base(ABC):
                     lAxis.setNames(strictNames, useLog=False)
                     rAxis.setNames(strictNames, useLog=False)
                 except InvalidArgumentValue as e:
+                    lAxis.setNames(lNames, useLog=False)
                     msg = f"When {axis}='strict' and default {axis} names "
                     msg += f"exist, names cannot be reordered. The {axis} "
                     msg += "names do not match at each index where both  "
@@ -4670,7 +4676,12 @@ class Base(ABC):
                 msg += f'that each {axis} is equal between the two objects'
                 raise InvalidArgumentValue(msg)
 
-            self._genericMergeFrontend(tmpOther, point, feature, onFeature)
+            try:
+                self._genericMergeFrontend(tmpOther, point, feature, onFeature)
+            except Exception:
+                # this object must not be modified by a refused merge
+                lAxis.setNames(lNames, useLog=False)
+                raise
 
             # only reset names if we did not generate them
             if lNames is None and rNames is None:
-- 
2.43.0


From 85d1c6694bdb51764cf15a2f8d72ae64b0bcbd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 039/220] fix: List merge key location, refusals, filled values
 and empty objects

---
 nimble/core/data/list.py | 77 +++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 40 deletions(-)

diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index d16ea3f..b2d9a83 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -374,27 +374,29 @@ class List(Base):
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
+        # this object must not be modified if the merge is not possible
+        left = self._data
+        numFtsL = len(self.features)
+        numFtsR = len(other.features)
+        if feature == "intersection":
+            numFtsL = len(matchingFtIdx[0])
+        if feature in ["intersection", "left"]:
+            numFtsR = len(matchingFtIdx[1])
         if onFeature is not None:
             if feature in ["intersection", "left"]:
                 onFeatureIdx = self.features.getIndex(onFeature)
-                onIdxLoc = matchingFtIdx[0].index(onFeatureIdx)
-                onIdxL = onIdxLoc
-                onIdxR = onIdxLoc
+                onIdxL = onFeatureIdx
+                onIdxR = matchingFtIdx[0].index(onFeatureIdx)
                 right = [[row[i] for i in matchingFtIdx[1]]
                          for row in other._data]
                 # matching indices in right were sorted when slicing above
-                if len(right) > 0:
-                    matchingFtIdx[1] = list(range(len(right[0])))
-                else:
-                    matchingFtIdx[1] = []
+                matchingFtIdx[1] = list(range(len(matchingFtIdx[1])))
                 if feature == "intersection":
-                    self._data = [[row[i] for i in matchingFtIdx[0]]
-                                  for row in self._data]
+                    onIdxL = onIdxR
+                    left = [[row[i] for i in matchingFtIdx[0]]
+                            for row in left]
                     # matching indices in left were sorted when slicing above
-                    if len(self._data) > 0:
-                        matchingFtIdx[0] = list(range(len(self._data[0])))
-                    else:
-                        matchingFtIdx[0] = []
+                    matchingFtIdx[0] = list(range(len(matchingFtIdx[0])))
             else:
                 onIdxL = self.features.getIndex(onFeature)
                 onIdxR = other.features.getIndex(onFeature)
@@ -403,7 +405,8 @@ class List(Base):
             # using pointNames, prepend pointNames to left and right lists
             onIdxL = 0
             onIdxR = 0
-            left = []
+            numFtsL += 1
+            numFtsR += 1
             right = []
 
             def ptNameGetter(obj, idx, add=0):
@@ -414,11 +417,9 @@ class List(Base):
                 return idx + add
 
             if feature == "intersection":
-                for i, pt in enumerate(self._data):
-                    ptL = [ptNameGetter(self, i)]
-                    intersect = [val for idx, val in enumerate(pt)
-                                 if idx in matchingFtIdx[0]]
-                    self._data[i] = ptL + intersect
+                left = [[ptNameGetter(self, i)]
+                        + [pt[idx] for idx in matchingFtIdx[0]]
+                        for i, pt in enumerate(self._data)]
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
@@ -426,15 +427,11 @@ class List(Base):
                     right.append(ptR)
                 # matching indices were sorted above
                 # this also accounts for prepended column
-                if len(self._data) > 0:
-                    matchingFtIdx[0] = list(range(len(self._data[0])))
-                else:
-                    matchingFtIdx[0] = []
+                matchingFtIdx[0] = list(range(numFtsL))
                 matchingFtIdx[1] = matchingFtIdx[0]
             elif feature == "left":
-                for i, pt in enumerate(self._data):
-                    ptL = [ptNameGetter(self, i)]
-                    self._data[i] = ptL + pt
+                left = [[ptNameGetter(self, i)] + list(pt)
+                        for i, pt in enumerate(self._data)]
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
@@ -445,11 +442,10 @@ class List(Base):
                 matchingFtIdx[0].insert(0, 0)
                 # matching indices were sorted when slicing above
                 # this also accounts for prepended column
-                matchingFtIdx[1] = list(range(len(right[0])))
+                matchingFtIdx[1] = list(range(numFtsR))
             else:
-                for i, pt in enumerate(self._data):
-                    ptL = [ptNameGetter(self, i)]
-                    self._data[i] = ptL + pt
+                left = [[ptNameGetter(self, i)] + list(pt)
+                        for i, pt in enumerate(self._data)]
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
@@ -459,11 +455,10 @@ class List(Base):
                 matchingFtIdx[0].insert(0, 0)
                 matchingFtIdx[1] = list(map(lambda x: x + 1, matchingFtIdx[1]))
                 matchingFtIdx[1].insert(0, 0)
-        left = self._data
 
         matched = []
         merged = []
-        unmatchedFtCountR = len(right[0]) - len(matchingFtIdx[1])
+        unmatchedFtCountR = numFtsR - len(matchingFtIdx[1])
         matchMapper = {}
         for pt in left:
             match = [right[i] for i in range(len(right))
@@ -471,11 +466,13 @@ class List(Base):
             if len(match) > 0:
                 matchMapper[pt[onIdxL]] = match
 
-        for ptL in left:
-            target = ptL[onIdxL]
+        for origL in left:
+            target = origL[onIdxL]
             if target in matchMapper:
                 matchesR = matchMapper[target]
                 for ptR in matchesR:
+                    # each match begins with the original left values
+                    ptL = list(origL)
                     # check for conflicts between matching features
                     matches = [ptL[i] == ptR[j] for i, j
                                in zip(matchingFtIdx[0], matchingFtIdx[1])]
@@ -501,22 +498,22 @@ class List(Base):
                     merged.append(pt)
                 matched.append(target)
             elif point in ['union', 'left']:
-                ptR = [np.nan] * (len(right[0]) - len(matchingFtIdx[1]))
-                pt = ptL + ptR
+                ptR = [np.nan] * unmatchedFtCountR
+                pt = list(origL) + ptR
                 merged.append(pt)
 
         if point == 'union':
             for row in right:
                 target = row[onIdxR]
                 if target not in matched:
-                    pt = [np.nan] * (len(left[0]) + unmatchedFtCountR)
+                    pt = [np.nan] * (numFtsL + unmatchedFtCountR)
                     for i, j in zip(matchingFtIdx[0], matchingFtIdx[1]):
                         pt[i] = row[j]
-                    pt[len(left[0]):] = [row[i] for i in range(len(right[0]))
-                                         if i not in matchingFtIdx[1]]
+                    pt[numFtsL:] = [row[i] for i in range(numFtsR)
+                                    if i not in matchingFtIdx[1]]
                     merged.append(pt)
 
-        self._dims = [len(merged), len(left[0]) + unmatchedFtCountR]
+        self._dims = [len(merged), numFtsL + unmatchedFtCountR]
         if onFeature is None:
             # remove point names feature
             merged = [row[1:] for row in merged]
-- 
2.43.0


From 17b350f9dc89ed074b062b17370a5a9c241ab926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 040/220] fix: Matrix merge key location, refusals and filled
 values

---
 nimble/core/data/matrix.py | 39 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 25d811b..c91a146 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -252,21 +252,22 @@ class Matrix(Base):
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
-        self._data = np.array(self._data, dtype=np.object_)
+        # this object must not be modified if the merge is not possible
+        left = np.array(self._data, dtype=np.object_)
         otherArr = np.array(other._data, dtype=np.object_)
         if onFeature is not None:
             if feature in ["intersection", "left"]:
                 onFeatureIdx = self.features.getIndex(onFeature)
-                onIdxLoc = matchingFtIdx[0].index(onFeatureIdx)
-                onIdxL = onIdxLoc
-                onIdxR = onIdxLoc
+                onIdxL = onFeatureIdx
+                onIdxR = matchingFtIdx[0].index(onFeatureIdx)
                 right = otherArr[:, matchingFtIdx[1]]
                 # matching indices in right were sorted when slicing above
                 matchingFtIdx[1] = list(range(right.shape[1]))
                 if feature == "intersection":
-                    self._data = self._data[:, matchingFtIdx[0]]
+                    onIdxL = onIdxR
+                    left = left[:, matchingFtIdx[0]]
                     # matching indices in left were sorted when slicing above
-                    matchingFtIdx[0] = list(range(self._data.shape[1]))
+                    matchingFtIdx[0] = list(range(left.shape[1]))
             else:
                 onIdxL = self.features.getIndex(onFeature)
                 onIdxR = other.features.getIndex(onFeature)
@@ -301,16 +302,16 @@ class Matrix(Base):
                 ptsR = np.array(range(len(other.points)), dtype=np.object_)
                 ptsR = ptsR.reshape(-1, 1)
             if feature == "intersection":
-                concatL = (ptsL, self._data[:, matchingFtIdx[0]])
-                self._data = np.concatenate(concatL, axis=1)
+                concatL = (ptsL, left[:, matchingFtIdx[0]])
+                left = np.concatenate(concatL, axis=1)
                 concatR = (ptsR, otherArr[:, matchingFtIdx[1]])
                 right = np.concatenate(concatR, axis=1)
                 # matching indices were sorted when slicing above
                 # this also accounts for prepended column
-                matchingFtIdx[0] = list(range(self._data.shape[1]))
+                matchingFtIdx[0] = list(range(left.shape[1]))
                 matchingFtIdx[1] = matchingFtIdx[0]
             elif feature == "left":
-                self._data = np.concatenate((ptsL, self._data), axis=1)
+                left = np.concatenate((ptsL, left), axis=1)
                 concatR = (ptsR, otherArr[:, matchingFtIdx[1]])
                 right = np.concatenate(concatR, axis=1)
                 # account for new column in matchingFtIdx
@@ -320,14 +321,13 @@ class Matrix(Base):
                 # this also accounts for prepended column
                 matchingFtIdx[1] = list(range(right.shape[1]))
             else:
-                self._data = np.concatenate((ptsL, self._data), axis=1)
+                left = np.concatenate((ptsL, left), axis=1)
                 right = np.concatenate((ptsR, otherArr), axis=1)
                 # account for new column in matchingFtIdx
                 matchingFtIdx[0] = list(map(lambda x: x + 1, matchingFtIdx[0]))
                 matchingFtIdx[0].insert(0, 0)
                 matchingFtIdx[1] = list(map(lambda x: x + 1, matchingFtIdx[1]))
                 matchingFtIdx[1].insert(0, 0)
-        left = self._data
 
         matched = []
         merged = []
@@ -337,11 +337,13 @@ class Matrix(Base):
             matches = right[right[:, onIdxR] == pt[onIdxL]]
             if len(matches) > 0:
                 matchMapper[pt[onIdxL]] = matches
-        for ptL in left:
-            target = ptL[onIdxL]
+        for origL in left:
+            target = origL[onIdxL]
             if target in matchMapper:
                 matchesR = matchMapper[target]
                 for ptR in matchesR:
+                    # each match begins with the original left values
+                    ptL = origL.copy()
                     # check for conflicts between matching features
                     matches = ptL[matchingFtIdx[0]] == ptR[matchingFtIdx[1]]
                     nansL = np.array([x != x for x
@@ -356,16 +358,15 @@ class Matrix(Base):
                     if nansL.any():
                         # fill any nan values in left with the corresponding
                         # right value
-                        for i, value in enumerate(ptL[matchingFtIdx[0]]):
-                            if value != value:
-                                fill = ptR[matchingFtIdx[1]][i]
-                                ptL[matchingFtIdx[0]][i] = fill
+                        for i, j in zip(matchingFtIdx[0], matchingFtIdx[1]):
+                            if ptL[i] != ptL[i]:
+                                ptL[i] = ptR[j]
                     ptR = np.delete(ptR, matchingFtIdx[1])
                     pt = np.concatenate((ptL, ptR)).flatten()
                     merged.append(pt)
                 matched.append(target)
             elif point in ['union', 'left']:
-                ptL = ptL.reshape(1, -1)
+                ptL = origL.reshape(1, -1)
                 ptR = np.ones((1, unmatchedPtCountR)) * np.nan
                 pt = np.append(ptL, ptR)
                 merged.append(pt)
-- 
2.43.0


From 77d1676110bbb02d63c09128cba21769ecb4a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 041/220] fix: Sparse merge of zeros, missing values and empty
 results

---
 nimble/core/data/sparse.py | 176 ++-----------------------------------
 1 file changed, 9 insertions(+), 167 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 4beeb72..af7e622 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -633,173 +633,15 @@ class Sparse(Base):
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
-        self._sortInternal('feature')
-        other._sortInternal('feature')
-        tempFtsL = len(self.features)
-        leftFtCount = tempFtsL
-        tempFtsR = len(other.features)
-        rightFtCount = tempFtsR - len(matchingFtIdx[0])
-        if onFeature is not None:
-            onIdxL = self.features.getIndex(onFeature)
-            onIdxR = other.features.getIndex(onFeature)
-            leftData = self._data.data
-            leftRow = self._data.row
-            leftCol = self._data.col
-            rightData = other._data.data.copy()
-            rightRow = other._data.row.copy()
-            rightCol = other._data.col.copy()
-        else:
-            onIdxL = 0
-            onIdxR = 0
-            tempFtsL += 1
-            tempFtsR += 1
-            leftData = self._data.data.astype(np.object_)
-            if not self.points._anyDefaultNames():
-                leftData = np.append([self.points.getNames()], leftData)
-            elif self.points._namesCreated():
-                # differentiate default names between objects
-                leftNames = [i if n is None else n for i, n
-                             in enumerate(self.points.getNames())]
-                leftData = np.append([leftNames], leftData)
-            else:
-                leftNames = list(range(len(self.points)))
-                leftData = np.append(leftNames, leftData)
-            leftRow = np.append(list(range(len(self.points))), self._data.row)
-            leftCol = np.append([0 for _ in range(len(self.points))],
-                                self._data.col + 1)
-            rightData = other._data.data.copy().astype(np.object_)
-            if not other.points._anyDefaultNames():
-                rightData = np.append([other.points.getNames()], rightData)
-            elif other.points._namesCreated():
-                maxL = len(self.points)
-                # differentiate default names between objects
-                rightNames = [i + maxL if n is None else n for i, n in
-                              enumerate(other.points.getNames())]
-                rightData = np.append([rightNames], rightData)
-            else:
-                rtRange = range(self.shape[0], self.shape[0] + other.shape[0])
-                rightNames = list(rtRange)
-                rightData = np.append(rightNames, rightData)
-            rightRow = np.append(list(range(len(other.points))),
-                                 other._data.row.copy())
-            rightCol = np.append([0 for i in range(len(other.points))],
-                                 other._data.col.copy() + 1)
-            matchingFtIdx[0] = list(map(lambda x: x + 1, matchingFtIdx[0]))
-            matchingFtIdx[0].insert(0, 0)
-            matchingFtIdx[1] = list(map(lambda x: x + 1, matchingFtIdx[1]))
-            matchingFtIdx[1].insert(0, 0)
-
-        mergedData = np.empty((0, 0))
-        mergedRow = []
-        mergedCol = []
-        matched = []
-        nextPt = 0
-        numPts = 0
-
-        for ptIdxL, target in enumerate(leftData[leftCol == onIdxL]):
-            rowIdxR = np.where(rightData[rightCol == onIdxR] == target)[0]
-            if len(rowIdxR) > 0:
-                for ptIdxR in rowIdxR:
-                    ptL = np.zeros((tempFtsL,), dtype=np.object_)
-                    inRowL = leftRow == ptIdxL
-                    ptL[leftCol[inRowL]] = leftData[inRowL]
-                    ptR = np.zeros((tempFtsR,), dtype=np.object_)
-                    inRowR = rightRow == ptIdxR
-                    ptR[rightCol[inRowR]] = rightData[inRowR]
-                    matches = ptL[matchingFtIdx[0]] == ptR[matchingFtIdx[1]]
-                    nansL = ptL[matchingFtIdx[0]] != ptL[matchingFtIdx[0]]
-                    nansR = ptR[matchingFtIdx[1]] != ptR[matchingFtIdx[1]]
-                    acceptableValues = matches + nansL + nansR
-                    if not all(acceptableValues):
-                        msg = "The objects contain different values for the "
-                        msg += "same feature"
-                        raise InvalidArgumentValue(msg)
-                    if len(nansL) > 0:
-                        # fill any nan values in left with the corresponding
-                        # right value
-                        for i, value in enumerate(ptL[matchingFtIdx[0]]):
-                            if value != value:
-                                fill = ptR[matchingFtIdx[1]][i]
-                                ptL[matchingFtIdx[0]][i] = fill
-                    ptR = ptR[[i for i in range(len(ptR))
-                               if i not in matchingFtIdx[1]]]
-                    pt = np.append(ptL, ptR)
-                    if feature == "intersection":
-                        pt = pt[matchingFtIdx[0]]
-                        leftFtCount = len(matchingFtIdx[0])
-                    elif onFeature is not None and feature == "left":
-                        pt = pt[:len(self.features)]
-                    elif feature == "left":
-                        pt = pt[:len(self.features) + 1]
-                    if onFeature is None:
-                        pt = pt[1:]
-                    matched.append(target)
-                    mergedData = np.append(mergedData, pt)
-                    mergedRow.extend([nextPt] * len(pt))
-                    mergedCol.extend(list(range(len(pt))))
-                    nextPt += 1
-                    numPts += 1
-            elif point in ["union", "left"]:
-                ptL = np.zeros((tempFtsL,), dtype=np.object_)
-                inRowL = leftRow == ptIdxL
-                ptL[leftCol[inRowL]] = leftData[inRowL]
-                ptR = [np.nan] * (tempFtsR - len(matchingFtIdx[1]))
-                pt = np.append(ptL, ptR)
-                if feature == "intersection":
-                    pt = pt[matchingFtIdx[0]]
-                elif feature == "left":
-                    pt = pt[:tempFtsL]
-                if onFeature is None:
-                    pt = pt[1:]
-                mergedData = np.append(mergedData, pt)
-                mergedRow.extend([nextPt] * len(pt))
-                mergedCol.extend(list(range(len(pt))))
-                nextPt += 1
-                numPts += 1
-
-        if point == 'union':
-            for ptIdxR, target in enumerate(rightData[rightCol == onIdxR]):
-                if target not in matched:
-                    nanList = [np.nan] * tempFtsL
-                    ptL = np.array(nanList, dtype=np.object_)
-                    ptR = np.zeros((tempFtsR,), dtype=np.object_)
-                    inRowR = rightRow == ptIdxR
-                    ptR[rightCol[inRowR]] = rightData[inRowR]
-                    fill = ptR[matchingFtIdx[1]]
-                    ptL[matchingFtIdx[0]] = fill
-                    # only unmatched points from right
-                    notMatchedR = np.in1d(rightCol, matchingFtIdx[1],
-                                          invert=True)
-                    ptR = rightData[(rightRow == ptIdxR) & (notMatchedR)]
-                    pt = np.append(ptL, ptR)
-                    if feature == "intersection":
-                        pt = pt[matchingFtIdx[0]]
-                    elif feature == "left":
-                        pt = pt[:tempFtsL]
-                    if onFeature is None:
-                        # remove pointNames column added
-                        pt = pt[1:]
-                    mergedData = np.append(mergedData, pt)
-                    mergedRow.extend([nextPt] * len(pt))
-                    mergedCol.extend(list(range(len(pt))))
-                    nextPt += 1
-                    numPts += 1
-
-        numFts = leftFtCount + rightFtCount
-        if onFeature is not None and feature == "intersection":
-            numFts = len(matchingFtIdx[0])
-        elif feature == "intersection":
-            numFts = len(matchingFtIdx[0]) - 1
-        elif feature == "left":
-            numFts = len(self.features)
-        if len(mergedData) == 0:
-            mergedData = []
-
-        mergedData = mergedData.astype(np.float64)
-        self._dims = [numPts, numFts]
-        self._data = scipy.sparse.coo_matrix(
-            (mergedData, (mergedRow, mergedCol)), shape=(numPts, numFts))
-
+        # Every value, including each zero, can be a key, conflict with a value
+        # in the other object or fill a missing value.
+        left = self.copy('List')
+        left._merge_implementation(other.copy('List'), point, feature,
+                                   onFeature, matchingFtIdx)
+        merged = np.array(left._data, dtype=np.float64).reshape(left._dims)
+
+        self._dims = left._dims
+        self._data = scipy.sparse.coo_matrix(merged)
         self._data.eliminate_zeros()
         self._resetSorted()
 
-- 
2.43.0


From 1912a5c0e714c35f218d30747652977aa060c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 042/220] fix: DataFrame merge order of points, refusals and
 filled values

---
 nimble/core/data/dataframe.py | 84 ++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 41 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 0c9ea3f..ac9df62 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -324,46 +324,52 @@ class DataFrame(Base):
             point = 'outer'
         elif point == 'intersection':
             point = 'inner'
-        if self.features._namesCreated():
-            self._data.columns = self.features.getNames()
+        # Columns are labeled by location, for right starting after the last
+        # column of left. This object must not be modified if the merge is not
+        # possible.
+        tmpDfL = self._data.copy()
+        tmpDfL.columns = range(len(tmpDfL.columns))
         tmpDfR = other._data.copy()
-        if other.features._namesCreated():
-            tmpDfR.columns = other.features.getNames()
+        tmpDfR.columns = range(len(tmpDfR.columns))
+        if onFeature is not None:
+            onIdxL = self.features.getIndex(onFeature)
+            onIdxR = other.features.getIndex(onFeature)
 
         if feature == 'intersection':
-            self._data = self._data.iloc[:, matchingFtIdx[0]]
-            tmpDfR = tmpDfR.iloc[:, matchingFtIdx[1]]
-            matchingFtIdx[0] = list(range(self._data.shape[1]))
-            matchingFtIdx[1] = list(range(tmpDfR.shape[1]))
-        elif feature == "left":
+            tmpDfL = tmpDfL.iloc[:, matchingFtIdx[0]]
+            if onFeature is not None:
+                onIdxL = matchingFtIdx[0].index(onIdxL)
+            tmpDfL.columns = range(len(tmpDfL.columns))
+            matchingFtIdx[0] = list(range(tmpDfL.shape[1]))
+        if feature in ['intersection', 'left']:
             tmpDfR = tmpDfR.iloc[:, matchingFtIdx[1]]
+            if onFeature is not None:
+                onIdxR = matchingFtIdx[1].index(onIdxR)
             matchingFtIdx[1] = list(range(tmpDfR.shape[1]))
 
-        numColsL = len(self._data.columns)
+        numColsL = len(tmpDfL.columns)
+        tmpDfR.columns = range(numColsL, numColsL + len(tmpDfR.columns))
         if onFeature is None:
-            if (self.points._namesCreated()
-                    and other.points._namesCreated()):
-                # differentiate default names between objects using integers
-                self._data.index = [i if n is None else n for i, n
-                                    in enumerate(self.points.getNames())]
-                maxL = len(self.points)
-                tmpDfR.index = [i + maxL if n is None else n for i, n
-                                in enumerate(other.points.getNames())]
-            else:
-                # left guaranteed equiv to pd.RangeIndex(self._data.shape[0])
-                idxRange = range(self.shape[0], self.shape[0] + other.shape[0])
-                tmpDfR.index = list(idxRange)
-
-            self._data = self._data.merge(tmpDfR, how=point, left_index=True,
-                                          right_index=True)
+            # differentiate default names between objects using integers
+            namesL = [i if n is None else n for i, n
+                      in enumerate(self.points.getNames())]
+            maxL = len(self.points)
+            namesR = [i + maxL if n is None else n for i, n
+                      in enumerate(other.points.getNames())]
+            tmpDfL.index = pd.Index(namesL, dtype=object)
+            tmpDfR.index = pd.Index(namesR, dtype=object)
+            merged = tmpDfL.merge(tmpDfR, how=point, left_index=True,
+                                  right_index=True)
+            # pandas might sort the labels
+            inMerged, inLeft = set(merged.index), set(namesL)
+            order = namesL + [n for n in namesR if n not in inLeft]
+            merged = merged.loc[[n for n in order if n in inMerged]]
         else:
-            onIdxL = self._data.columns.get_loc(onFeature)
-            onIdxR = tmpDfR.columns.get_loc(onFeature) + numColsL
-            self._data = self._data.merge(tmpDfR, how=point, on=onFeature)
+            tmpDfR = tmpDfR.rename(columns={onIdxR + numColsL: onIdxL})
+            merged = tmpDfL.merge(tmpDfR, how=point, on=onIdxL)
 
         # return labels to default after we've executed the merge
-        self._data.index = pd.RangeIndex(self._data.shape[0])
-        self._data.columns = pd.RangeIndex(self._data.shape[1])
+        merged.index = pd.RangeIndex(merged.shape[0])
 
         toDrop = []
         for left, right in zip(matchingFtIdx[0], matchingFtIdx[1]):
@@ -371,26 +377,22 @@ class DataFrame(Base):
                 # onFeature column has already been merged
                 continue
             right += numColsL
-            if onFeature is not None and right > onIdxR:
-                # one less to account for merged onFeature
-                right -= 1
 
-            matches = self._data.iloc[:, left] == self._data.iloc[:, right]
-            nansL = np.array([x != x for x in self._data.iloc[:, left]])
-            nansR = np.array([x != x for x in self._data.iloc[:, right]])
+            matches = merged[left] == merged[right]
+            nansL = np.array([x != x for x in merged[left]], dtype=bool)
+            nansR = np.array([x != x for x in merged[right]], dtype=bool)
             acceptableValues = matches | nansL | nansR
             if not all(acceptableValues):
                 msg = "The objects contain different values for the same "
                 msg += "feature"
                 raise InvalidArgumentValue(msg)
             if nansL.any():
-                leftNansLocInRight = self._data.iloc[:, right][nansL]
-                self._data.iloc[:, left][nansL] = leftNansLocInRight
+                merged[left] = merged[right].where(nansL, merged[left])
             toDrop.append(right)
 
-        if toDrop:
-            self._data.drop(toDrop, axis=1, inplace=True)
-            self._data.columns = pd.RangeIndex(self._data.shape[1])
+        merged = merged.drop(toDrop, axis=1)
+        merged.columns = pd.RangeIndex(merged.shape[1])
+        self._data = merged
 
         numFeatures = (numColsL + len(tmpDfR.columns) - len(matchingFtIdx[1]))
         numPoints = len(self._data.index)
-- 
2.43.0


From 73795f83429678a42eb59503be3cc7ada8c3d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 043/220] fix: a strict merge refuses different names at the
 same index

---
 nimble/core/data/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 670764c..e2b07e6 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4655,10 +4655,14 @@ class Base(ABC):
                 endNames = rNames
             elif force: # default names present
                 endNames = mergeNames(lAxis.getNames(), rAxis.getNames())
+                mismatch = any(None not in (l, r) and l != r for l, r
+                               in zip(lAxis.getNames(), rAxis.getNames()))
                 # need to alter default names so that _genericMergeFrontend
                 # treats them as non-default and equal. After the data is
                 # merged, the names are reset to their default state.
                 try:
+                    if mismatch:
+                        raise InvalidArgumentValue('names do not match')
                     strictNames = ['_STRICT' + str(i) if n is None else n
                                    for i, n in enumerate(endNames)]
                     lAxis.setNames(strictNames, useLog=False)
-- 
2.43.0


From 81cbd6579d5e885b853f011a73daa7081cefbf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 044/220] fix: transposed and high dimension copies to python
 lists keep the types of values

---
 nimble/core/data/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index e2b07e6..2dea704 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3848,9 +3848,10 @@ class Base(ABC):
     def _copy_pythonList(self, rowsArePoints):
         ret = self._copy_implementation('pythonlist')
         if len(self._dims) > 2:
-            ret = np.reshape(ret, self._dims).tolist()
+            # object dtype to not convert values when types are mixed
+            ret = np.reshape(np.array(ret, dtype=object), self._dims).tolist()
         if not rowsArePoints:
-            ret = np.transpose(ret).tolist()
+            ret = np.transpose(np.array(ret, dtype=object)).tolist()
         return ret
 
     def _copy_nestedPythonTypes(self, to, rowsArePoints):
-- 
2.43.0


From cd273454be3ef460433aa3b6db362d65a4575ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 045/220] fix: hashCode and isApproximatelyEqual accept text
 and missing values

---
 nimble/core/data/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 2dea704..6451c5b 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -32,6 +32,7 @@ from abc import ABC, abstractmethod
 from contextlib import contextmanager
 import shutil
 import re
+import zlib
 
 import numpy as np
 from scipy.sparse import coo_matrix
@@ -87,6 +88,13 @@ def hashCodeFunc(elementValue, pointNum, featureNum):
     """
     Generate hash code.
     """
+    if match.missing(elementValue):
+        elementValue = 0.5
+    elif not allNumeric([elementValue]):
+        elementValue = zlib.crc32(str(elementValue).encode())
+    elif elementValue in (math.inf, -math.inf):
+        elementValue = math.copysign(1.5, elementValue)
+
     return ((math.sin(pointNum) + math.cos(featureNum)) / 2.0) * elementValue
 
 def allNumeric(values):
-- 
2.43.0


From cb0316be13c35b7f56bb0d7f0d459987fc4dbca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 046/220] fix: two stretched objects with only default names
 can be combined

---
 nimble/core/data/stretch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/stretch.py b/nimble/core/data/stretch.py
index fba52a3..f8db506 100644
--- a/nimble/core/data/stretch.py
+++ b/nimble/core/data/stretch.py
@@ -119,6 +119,8 @@ class Stretch(object):
             oDefault = oAxis._allDefaultNames()
             if sNames == oNames: # includes both names are None
                 return sNames
+            if sDefault and oDefault:
+                return None
             if sDefault and oStretch and oNum != setNum and oNames:
                 oName = oNames[0]
                 return [oName + '_' + str(i + 1) for i in range(setNum)]
-- 
2.43.0


From 863313ffd7d57b5eb0aa496a3465627aca6a1a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 047/220] fix: a stretched single element of Sparse fits
 another stretched point

---
 nimble/core/data/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/stretch.py b/nimble/core/data/stretch.py
index f8db506..e300574 100644
--- a/nimble/core/data/stretch.py
+++ b/nimble/core/data/stretch.py
@@ -277,7 +277,7 @@ class StretchSparse(Stretch):
                 lhs = self._source
             rhs = other.copy()
         # other is Stretch
-        elif self._numPts == 1:
+        elif self._numPts == 1 and other._numFts == 1:
             selfFts = len(self._source.features)
             otherPts = len(other._source.points)
             lhs = self._source.points.repeat(otherPts, True, useLog=False)
-- 
2.43.0


From 1cb07e7944de7902f97a256d498766d2971284de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 048/220] fix: Sparse arithmetic with a missing scalar also
 applies to zeros

---
 nimble/core/data/sparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index af7e622..9a016e3 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -952,7 +952,8 @@ class Sparse(Base):
         zeroPreserved = any(name in opName for name in zeroSafe)
         if opName in ['__pow__', '__ipow__'] and other > 0:
             zeroPreserved = True
-        if zeroPreserved:
+        # a zero times or divided by a missing or infinite value is not zero
+        if zeroPreserved and np.isfinite(other):
             return self._scalarZeroPreservingBinary_implementation(
                 opName, other)
 
-- 
2.43.0


From af109609492b4165a195d4fac6d99a61c6e92318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 049/220] fix: Sparse matrix multiplication does not lose
 missing values

---
 nimble/core/data/base.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 6451c5b..e9d4fc5 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4967,7 +4967,11 @@ class Base(ABC):
             caller = caller.copy(self.getTypeString())
 
         try:
-            ret = caller._matmul__implementation(callee)
+            if (isinstance(caller, nimble.core.data.Sparse)
+                    or isinstance(callee, nimble.core.data.Sparse)):
+                ret = caller._sparseMatmul(callee)
+            else:
+                ret = caller._matmul__implementation(callee)
         except TypeError:
             # help determine the source of the error
             self._numericValidation()
@@ -4983,6 +4987,24 @@ class Base(ABC):
 
         return ret
 
+    def _sparseMatmul(self, other):
+        """
+        Matrix multiplication when either object is Sparse. Sparse
+        multiplication ignores zeros, but a zero multiplied by a missing
+        (or infinite) value is missing so requires the dense values.
+        """
+        for obj in (self, other):
+            if isinstance(obj, nimble.core.data.Sparse):
+                values = obj._getSparseData().data
+            else:
+                values = obj.copy('numpyarray')
+            if not np.isfinite(values.astype(float)).all():
+                data = np.matmul(self.copy('numpyarray'),
+                                 other.copy('numpyarray'))
+                return createDataNoValidation(self.getTypeString(), data)
+
+        return self._matmul__implementation(other)
+
     @limitedTo2D
     def matrixPower(self, power):
         """
-- 
2.43.0


From a021dbf1ec80f6b3312e37de047467db033a99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 050/220] fix: nested data objects with dimensions of size one
 keep their dimensions

---
 nimble/core/_createHelpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 34b055b..028e1fd 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1240,8 +1240,11 @@ def flattenToOneDimension(data, toFill=None, dimensions=None):
     always return a point-based iterator for these cases so data is
     flattened point by point.
     """
+    if _isBase(data) and len(data._dims) > 2:
+        # nested lists provide every dimension, including those of size one
+        data = data.copy('python list')
     # if Base and not a vector, use points attribute for __len__ and __iter__
-    if _isBase(data) and (len(data._dims) > 2 or data.shape[0] > 1):
+    elif _isBase(data) and data.shape[0] > 1:
         data = data.points
     if toFill is None:
         toFill = []
-- 
2.43.0


From 01d58482f556a7f0696e87d2b80b058ff6f26ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 051/220] fix: DataFrame unflatten by feature uses the types of
 each feature

---
 nimble/core/data/dataframe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index ac9df62..fc8b6c4 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -310,7 +310,7 @@ class DataFrame(Base):
             newDtypes = tuple(max(dtypes[i::reshape[1]]) for i in jumps)
         else:
             jumps = range(0, np.prod(reshape), reshape[0])
-            newDtypes = tuple(max(dtypes[i:i+reshape[1]]) for i in jumps)
+            newDtypes = tuple(max(dtypes[i:i+reshape[0]]) for i in jumps)
         order = convertToNumpyOrder(order)
         array = self._asNumpyArray()
         values = array.reshape(reshape, order=order)
-- 
2.43.0


From 9ede0783891df56959567eca1e7fc27ae62a4003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 052/220] fix: Sparse views keep the dimensions when points
 contain a single value

---
 nimble/core/data/sparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 9a016e3..34e0763 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -805,6 +805,8 @@ class Sparse(Base):
             else:
                 primary = np.zeros((end - start,), dtype=int)
                 secondary = sortedSecondary[start:end] - secondaryStart
+                if len(self._dims) > 2: # each point is a single value
+                    kwds['shape'] = [pshape] + self._dims[1:]
 
             if singlePoint:
                 row = primary
-- 
2.43.0


From acb19d4efdd21302b5e18227ee74ab3f4c262d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 053/220] fix: unflatten only restores names which align with
 the dimensions

---
 nimble/core/data/base.py | 46 ++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index e9d4fc5..5da468e 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4140,10 +4140,11 @@ class Base(ABC):
         self.points.setNames(['Flattened'], useLog=False)
 
 
-    def _unflattenNames(self):
+    def _unflattenNames(self, shape):
         """
         Helper calculating the new axis names after an unflattening
-        operation.
+        operation. The names are only used when they are those of an object
+        with the new shape.
         """
         possibleNames = None
         if len(self.points) > 1 and self.points._namesCreated():
@@ -4162,29 +4163,22 @@ class Base(ABC):
             else:
                 return (None, None)
 
-        pNames = []
-        fNames = []
-        allPtDefault = True
-        allFtDefault = True
-        for pName, fName in splitNames:
-            if pName not in pNames:
-                if pName.startswith('_PT#'):
-                    pNames.append(None)
-                else:
-                    pNames.append(pName)
-                    if allPtDefault:
-                        allPtDefault = False
-            if fName not in fNames:
-                if fName.startswith('_FT#'):
-                    fNames.append(None)
-                else:
-                    fNames.append(fName)
-                    if allFtDefault:
-                        allFtDefault = False
+        # every combination of the names must be found, ordered by either axis
+        pNames = list(dict.fromkeys(pName for pName, _ in splitNames))
+        fNames = list(dict.fromkeys(fName for _, fName in splitNames))
+        if (len(pNames), len(fNames)) != tuple(shape):
+            return (None, None)
+        byPoint = [[p, f] for p in pNames for f in fNames]
+        byFeature = [[p, f] for f in fNames for p in pNames]
+        if splitNames not in (byPoint, byFeature):
+            return (None, None)
 
-        if allPtDefault:
+        # placeholders indicate a default name
+        pNames = [None if n.startswith('_PT#') else n for n in pNames]
+        fNames = [None if n.startswith('_FT#') else n for n in fNames]
+        if all(n is None for n in pNames):
             pNames = None
-        if allFtDefault:
+        if all(n is None for n in fNames):
             fNames = None
 
         return pNames, fNames
@@ -4342,11 +4336,7 @@ class Base(ABC):
         self._unflatten_implementation(shape2D, order)
 
         if len(dataDimensions) == 2:
-            pNames, fNames = self._unflattenNames()
-            if pNames and len(pNames) != shape2D[0]:
-                pNames = None
-            if fNames and len(fNames) != shape2D[1]:
-                fNames = None
+            pNames, fNames = self._unflattenNames(shape2D)
         else:
             pNames, fNames = (None, None)
 
-- 
2.43.0


From 03bced95ae2af1169d4eb61686d2bb62109fc527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 054/220] fix: creating an object from a tuple of lists does
 not change the lists

---
 nimble/core/_createHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 028e1fd..3c6efa5 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1542,8 +1542,8 @@ def initDataObject(
     # anything we do not recognize turn into a list, this allows for source to
     # be range, generator, map, iter, etc., and other list-like data structures
     elif not isinstance(rawData, (list, dict)):
+        # not considered copied, the items are still those of the source
         rawData = list(rawData)
-        copied = True
 
     rawData, highDim, copied = isHighDimensionData(rawData, rowsArePoints,
                                                    skipDataProcessing, copied)
-- 
2.43.0


From 32af0a95c860091662bc9de39b19ddf90e315847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 055/220] fix: a DataFrame made from a labelled pandas object
 uses positions

---
 nimble/core/data/dataframe.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index fc8b6c4..6ab327a 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -75,6 +75,14 @@ class DataFrame(Base):
                 self._data = data
             else:
                 self._data = data.copy()
+            # implementations rely on labels being the positions, the labels
+            # of the provided object must not be modified
+            numPts, numFts = self._data.shape
+            if not (self._data.index.equals(pd.RangeIndex(numPts))
+                    and self._data.columns.equals(pd.RangeIndex(numFts))):
+                self._data = self._data.copy(deep=False)
+                self._data.index = pd.RangeIndex(numPts)
+                self._data.columns = pd.RangeIndex(numFts)
         else:
             self._data = pd.DataFrame(data, copy=True)
 
-- 
2.43.0


From 64e19feb64264d03b4dfd599e60705d53ed48ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 056/220] fix: pandas objects with numeric labels can be loaded

---
 nimble/core/_createHelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 3c6efa5..001a5b4 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -458,8 +458,8 @@ def extractNamesFromPdDataFrame(rawData, pnamesID, fnamesID, copied):
     Output the index of rawData as pointNames.
     Output the columns of rawData as featureNames.
     """
-    firstRow = rawData.iloc[0] if len(rawData) > 0 else None
-    secondRow = rawData.iloc[1] if len(rawData) > 1 else None
+    firstRow = rawData.iloc[0].tolist() if len(rawData) > 0 else None
+    secondRow = rawData.iloc[1].tolist() if len(rawData) > 1 else None
     pnamesID, fnamesID = autoDetectNamesFromRaw(pnamesID, fnamesID, firstRow,
                                                 secondRow)
 
-- 
2.43.0


From 0595c3e6e8a3c304d55509b16484c9ec144dc01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 057/220] fix: loading data does not empty the convertToType
 dictionary

---
 nimble/core/_createHelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 001a5b4..099e306 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1707,8 +1707,8 @@ def initDataObject(
 
     # To simplify, we will make convertToType dicts into lists of types
     if isinstance(convertToType, dict):
-        convertToType = convertToTypeDictToList(convertToType, ret.features,
-                                                featureNames)
+        convertToType = convertToTypeDictToList(convertToType.copy(),
+                                                ret.features, featureNames)
     elif isinstance(convertToType, list):
         if len(convertToType) != len(ret.features):
             numFts=len(ret.features)
-- 
2.43.0


From 0f7bcb222bcfd68bbbfd009c1e90c6cf91eec5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 058/220] fix: dictionaries copied from an object hold features
 with default names

---
 nimble/core/data/_dataHelpers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 5ca2589..f6bfac3 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -405,14 +405,15 @@ def createListOfDict(data, featureNames):
     """
     Create a list of dictionaries mapping feature names to point values.
 
-    Dictionaries are in point order.
+    Dictionaries are in point order. The index is the key of any feature
+    with a default name.
     """
     listofdict = []
     for point in data:
         featureDict = {}
         for i, value in enumerate(point):
             feature = featureNames[i]
-            featureDict[feature] = value
+            featureDict[i if feature is None else feature] = value
         listofdict.append(featureDict)
     return listofdict
 
@@ -420,12 +421,16 @@ def createDictOfList(data, featureNames, nFeatures):
     """
     Create a python dictionary mapping feature names to python lists.
 
-    Each list contains the values in the feature in point order.
+    Each list contains the values in the feature in point order. The index
+    is the key of any feature with a default name.
     """
     dictoflist = {}
     for i in range(nFeatures):
         feature = featureNames[i]
         valuesList = data[:, i].tolist()
+        # a name of None would be shared by, and lose the values of, features
+        if feature is None and valuesList:
+            feature = i
         dictoflist[feature] = valuesList
     return dictoflist
 
-- 
2.43.0


From 52cc95c8c6c2fc2c2f7c46a8676cd6b6829ef781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 059/220] fix: transposed scipy copies are in the specified
 format

---
 nimble/core/data/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 5da468e..de4145b 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3839,6 +3839,9 @@ class Base(ABC):
             ret._absPath = self.absolutePath
         elif not rowsArePoints:
             ret = ret.transpose()
+            if to in ('scipycsr', 'scipycsc'):
+                # scipy swaps these formats when transposing
+                ret = ret.asformat(to[-3:])
 
         return ret
 
-- 
2.43.0


From b6c060f3d2a9577ef3586bcb2b2fb8938625962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 060/220] fix: a dictionary of values accepts a feature name

---
 nimble/core/_createHelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 099e306..01c1679 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -510,7 +510,8 @@ def _extractNamesFromDict(rawData, pointNames, featureNames, copied):
         if isAllowedSingleElement(rawData[0]):
             rawData = list(map(lambda val: [val], rawData))
             copied = True
-            featureNames = None
+            if not isinstance(featureNames, (list, dict)):
+                featureNames = None
             return rawData, pointNames, featureNames, copied
 
         # if we now have list of lists or the like, featureNames are
-- 
2.43.0


From 36814acadab4bca78b8bea72353a4708811189dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 061/220] fix: names of a data object follow rowsArePoints when
 it is loaded

---
 nimble/core/_createHelpers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 01c1679..ffaf7a0 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1498,10 +1498,15 @@ def initDataObject(
         if isinstance(rawData, nimble.core.data.BaseView):
             rawData = rawData.copy()
             copied = True
-        if pointNames == 'automatic' or pointNames is True:
-            pointNames = rawData.points._getNamesNoGeneration()
-        if featureNames == 'automatic' or featureNames is True:
-            featureNames = rawData.features._getNamesNoGeneration()
+        # pointNames and featureNames apply to the points and features of the
+        # result, which are swapped from the source unless rowsArePoints
+        pAxis, fAxis = rawData.points, rawData.features
+        if not rowsArePoints:
+            pAxis, fAxis = fAxis, pAxis
+        if isinstance(pointNames, (str, bool)) and pointNames:
+            pointNames = pAxis._getNamesNoGeneration()
+        if isinstance(featureNames, (str, bool)) and featureNames:
+            featureNames = fAxis._getNamesNoGeneration()
         if returnType is None:
             returnType = rawData.getTypeString()
         rawData = rawData._data
-- 
2.43.0


From 14c05e731901af9d34c3349fff5d066c5e652aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 062/220] fix: structured arrays are loaded with every point
 and in the returnType

---
 nimble/core/_createHelpers.py | 46 ++++++++++++-----------------------
 1 file changed, 15 insertions(+), 31 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index ffaf7a0..bb0d8d5 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -296,35 +296,20 @@ def extractNamesFromNumpy(data, pnamesID, fnamesID, copied):
     retPNames = None
     retFNames = None
  
-    # Special consideration for Structured Numpy arrays
-    def _convertStructuredNumpyToDataFrame(data):
-        data = pd.DataFrame(data, columns=retFNames)
-        fnamesID = True
-        return extractNamesFromPdDataFrame(data, pnamesID, fnamesID, copied)
-    
+    # Special consideration for Structured Numpy arrays, the names of the
+    # fields are the feature names so they are never found in the values
     if data.dtype.fields:
-        retFNames = [x for x in data.dtype.fields.keys()]
-        reshapedData = [list(data[x]) for  x in range(len(data))]
-        allNumeric = list(map(isNum, reshapedData[0]))
-        if all(allNumeric):
-            data = np.array(reshapedData)
-        else:
-            if pnamesID == True:
-                if all(allNumeric[1:]):
-                    retFNames.pop(0)
-                    data = list()
-                    retPNames = list()
-                    for i in reshapedData:
-                        data.append(i[1:])
-                        retPNames.append(i[0])
-                    data = np.array(data)
-                    return data, retPNames, retFNames, copied
-                else:
-                    return _convertStructuredNumpyToDataFrame(reshapedData)
-            else:
-                return _convertStructuredNumpyToDataFrame(reshapedData)
+        retFNames = list(data.dtype.fields.keys())
+        rows = [list(row) for row in data]
+        if pnamesID is True:
+            retPNames = [str(row.pop(0)) for row in rows]
+            retFNames.pop(0)
+        if fnamesID is False or fnamesID is None:
+            retFNames = None
+        if all(map(isNum, rows[0])):
+            return np.array(rows), retPNames, retFNames, True
+        return pd.DataFrame(rows), retPNames, retFNames, True
 
-           
     if len(data.shape) == 1:
         data = data.reshape(1, data.shape[0])
         addedDim = True
@@ -1517,11 +1502,10 @@ def initDataObject(
             rowTuple = rawData[0]
             if len(rowTuple) > 0:
                 allNumeric = list(map(isNum, rowTuple))
-                if not all(allNumeric):
-                    returnType = "DataFrame"
                 if pointNames is True:
-                    if all(allNumeric[1:]):
-                        returnType = "Matrix"
+                    allNumeric = allNumeric[1:]
+                if returnType is None and not all(allNumeric):
+                    returnType = "DataFrame"
         if _isNumpyMatrix(rawData):
             rawData = np.array(rawData)
             copied = True
-- 
2.43.0


From 57e731e18ffd1ab0163cda4da7f68a191c40a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 063/220] fix: zeros treated as missing are replaced in sparse
 data

---
 nimble/core/_createHelpers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index bb0d8d5..fb9882f 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1007,6 +1007,13 @@ def _replaceMissingData(rawData, treatAsMissing, replaceMissingWith, copied):
                 rawData = rawData.copy()
                 copied = True
             rawData = replaceNumpyValues(rawData, replaceLocs)
+    elif (scipy.nimbleAccessible() and scipy.sparse.issparse(rawData)
+          and getNumpyReplaceLocations(np.zeros(1, rawData.dtype)).any()):
+        # zeros are to be replaced, including those which are not stored
+        array = sparseMatrixToArray(rawData)
+        array = replaceNumpyValues(array, getNumpyReplaceLocations(array))
+        rawData = scipy.sparse.coo_matrix(array)
+        copied = True
     elif scipy.nimbleAccessible() and scipy.sparse.issparse(rawData):
         replaceLocs = getNumpyReplaceLocations(rawData.data)
         if replaceLocs.any():
-- 
2.43.0


From d9015f39341366b43e655f9f7c0b6eca433c7636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:30 +0000
Subject: [PATCH 064/220] fix: values replacing missing values in arrays are
 not truncated

---
 nimble/core/_createHelpers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index fb9882f..4b40689 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -985,15 +985,23 @@ def _replaceMissingData(rawData, treatAsMissing, replaceMissingWith, copied):
         return replaceLocs
 
     def replaceNumpyValues(data, replaceLocs):
+        # numpy would truncate a value that the dtype is not able to hold
+        if data.dtype.kind in 'US':
+            data = data.astype(np.object_)
+        elif (data.dtype.kind in 'iuf'
+              and isinstance(replaceMissingWith, (int, float, np.number))):
+            dtype = np.result_type(data.dtype,
+                                   np.min_scalar_type(replaceMissingWith))
+            data = data.astype(dtype, copy=False)
         # try to avoid converting dtype if possible for efficiency.
         try:
             if data.dtype == bool and not isinstance(replaceMissingWith, bool):
                 # numpy will replace with bool(replaceWith) instead
                 raise ValueError('replaceWith is not a bool type')
             data[replaceLocs] = replaceMissingWith
-        except ValueError:
+        except (ValueError, TypeError):
             dtype = type(replaceMissingWith)
-            if not allowedNumpyDType(dtype):
+            if replaceMissingWith is None or not allowedNumpyDType(dtype):
                 dtype = np.object_
             data = data.astype(dtype)
             data[replaceLocs] = replaceMissingWith
-- 
2.43.0


From be5dcc3f8f872d20e88e7de6a472e38a6fbb0e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:08 +0000
Subject: [PATCH 065/220] fix: names and values written to a csv file are
 restored when it is read

---
 nimble/core/data/_dataHelpers.py | 18 ++++++++++++++----
 nimble/core/data/base.py         |  4 ++--
 nimble/core/data/dataframe.py    | 24 +++++++++++++++---------
 nimble/core/data/list.py         |  9 +++++----
 nimble/core/data/matrix.py       |  6 +++---
 nimble/core/data/sparse.py       |  7 ++++---
 6 files changed, 43 insertions(+), 25 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index f6bfac3..7636eb4 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -784,14 +784,24 @@ class NimbleElementIterator(object):
 
 def csvCommaFormat(name):
     """
-    Prevent the name from being interpreted as two different csv values.
+    Prevent a name or value from being interpreted differently when read.
+
+    Quoting is required when the text contains a separator, quote or line
+    break, or when it could be interpreted as a comment or an empty line.
     """
-    if isinstance(name, str) and ',' in name:
-        if '"' in name:
-            name = re.sub(r'"', '""', name)
+    if (isinstance(name, str)
+            and (not name or name[0] == '#'
+                 or any(char in name for char in ',"\n\r'))):
+        name = name.replace('"', '""')
         name = f'"{name}"'
     return name
 
+def csvNames(names):
+    """
+    Names formatted for a csv file, default names are left empty.
+    """
+    return [csvCommaFormat('' if name is None else name) for name in names]
+
 def limitedTo2D(method):
     """
     Wrapper for operations only allowed in two-dimensions.
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index de4145b..880c9be 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -54,7 +54,7 @@ from ._dataHelpers import formatIfNeeded, validateInputString
 from ._dataHelpers import constructIndicesList, limitObjectDtype
 from ._dataHelpers import createListOfDict, createDictOfList
 from ._dataHelpers import createDataNoValidation
-from ._dataHelpers import csvCommaFormat
+from ._dataHelpers import csvNames
 from ._dataHelpers import validateElementFunction, wrapMatchFunctionFactory
 from ._dataHelpers import ElementIterator1D
 from ._dataHelpers import limitedTo2D
@@ -1909,7 +1909,7 @@ class Base(ABC):
 
 
     def _writeFeatureNamesToCSV(self, openFile, includePointNames):
-        fnames = list(map(csvCommaFormat, self.features.getNames()))
+        fnames = csvNames(self.features.getNames())
         if includePointNames:
             fnames.insert(0, 'pointNames')
         fnamesLine = ','.join(fnames)
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 6ab327a..17e106f 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -19,6 +19,7 @@
 Class extending Base, using a pandas DataFrame to store data.
 """
 
+import csv
 import itertools
 import numbers
 
@@ -167,17 +168,22 @@ class DataFrame(Base):
         """
         # the labels of the stored data do not change, even if writing fails
         data = self._data.copy(deep=False)
-        with open(outPath, 'w', encoding='utf-8') as outFile:
+        if includePointNames:
+            data.index = self.points.getNames()
+            first = data.index[0]
+        else:
+            first = data.iloc[0, 0]
+        quoting = csv.QUOTE_MINIMAL
+        if isinstance(first, str) and first.startswith('#'):
+            # otherwise, the first line could be interpreted as a comment
+            quoting = csv.QUOTE_NONNUMERIC
+        # newline='' because pandas defines the line endings
+        with open(outPath, 'w', encoding='utf-8', newline='') as outFile:
             if includeFeatureNames:
-                data.columns = self.features.getNames()
-                if includePointNames:
-                    outFile.write('pointNames')
-
-            if includePointNames:
-                data.index = self.points.getNames()
+                self._writeFeatureNamesToCSV(outFile, includePointNames)
 
-        data.to_csv(outPath, mode='a', index=includePointNames,
-                    header=includeFeatureNames)
+            data.to_csv(outFile, index=includePointNames, header=False,
+                        quoting=quoting)
 
     def _saveMTX_implementation(self, outPath, includePointNames,
                                 includeFeatureNames):
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index b2d9a83..2bffc08 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -35,7 +35,7 @@ from .views import BaseView
 from .listAxis import ListPoints, ListPointsView
 from .listAxis import ListFeatures, ListFeaturesView
 from ._dataHelpers import createDataNoValidation
-from ._dataHelpers import csvCommaFormat
+from ._dataHelpers import csvCommaFormat, csvNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 
@@ -209,11 +209,12 @@ class List(Base):
             if includeFeatureNames:
                 self._writeFeatureNamesToCSV(outFile, includePointNames)
 
-            for point in self.points:
+            if includePointNames:
+                pnames = csvNames(self.points.getNames())
+            for i, point in enumerate(self.points):
                 first = True
                 if includePointNames:
-                    currPname = csvCommaFormat(point.points.getName(0))
-                    outFile.write(currPname)
+                    outFile.write(pnames[i])
                     first = False
 
                 for value in point:
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index c91a146..42a85d6 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -37,7 +37,7 @@ from .matrixAxis import MatrixPoints, MatrixPointsView
 from .matrixAxis import MatrixFeatures, MatrixFeaturesView
 from ._dataHelpers import allDataIdentical
 from ._dataHelpers import createDataNoValidation
-from ._dataHelpers import csvCommaFormat
+from ._dataHelpers import csvCommaFormat, csvNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
@@ -144,8 +144,8 @@ class Matrix(Base):
             else:
                 viewData = self._data.view()
             if includePointNames:
-                pnames = list(map(csvCommaFormat, self.points.getNames()))
-                pnames = numpy2DArray(pnames).transpose()
+                pnames = csvNames(self.points.getNames())
+                pnames = numpy2DArray(pnames, dtype=object).transpose()
                 viewData = np.concatenate((pnames, viewData), 1)
 
             np.savetxt(outFile, viewData, delimiter=',', fmt='%s')
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 34e0763..a629515 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -40,7 +40,7 @@ from .sparseAxis import SparseFeatures, SparseFeaturesView
 from .stretch import StretchSparse
 from ._dataHelpers import allDataIdentical
 from ._dataHelpers import createDataNoValidation, limitObjectDtype
-from ._dataHelpers import csvCommaFormat
+from ._dataHelpers import csvCommaFormat, csvNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
@@ -318,10 +318,11 @@ class Sparse(Base):
             pmax = len(self._data.data)
             # write zero to file as same type as this data
             zero = self._data.data.dtype.type(0)
+            if includePointNames:
+                pnames = csvNames(self.points.getNames())
             for i in range(len(self.points)):
                 if includePointNames:
-                    currPname = csvCommaFormat(self.points.getName(i))
-                    outFile.write(currPname)
+                    outFile.write(pnames[i])
                     outFile.write(',')
                 for j in range(len(self.features)):
                     if (pointer < pmax and i == self._data.row[pointer]
-- 
2.43.0


From 1da81872c0e58f8c54320edcbe2f1711f1b51de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 066/220] fix: empty point names in a csv file are default
 names

---
 nimble/core/_createHelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 4b40689..a8ad642 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -3095,7 +3095,8 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
         retData = removeNonNumeric
 
     if pointNames is True:
-        retPNames = extractedPointNames
+        # as with features, an empty name represents a default name
+        retPNames = [n if n else None for n in extractedPointNames]
     elif pointNames and len(retData) == len(pointNames):
         retPNames = pointNames
     elif pointNames:
-- 
2.43.0


From 9bdead9e5f1b32ae2ee241ca7ad3a73a9e8519af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 067/220] fix: empty lines in quoted csv values are kept

---
 nimble/core/_createHelpers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index a8ad642..0abfa4d 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2869,10 +2869,9 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     # Advance the file past any beginning of file comments, record
     # how many are skipped
     skippedLines = _advancePastComments(ioStream)
-    # remake the file iterator to ignore empty lines
-    filtered = filter(lambda row: row[0] != '\n', ioStream)
-    # send that line iterator to the csv reader
-    lineReader = csv.reader(filtered, dialect)
+    # ignore empty lines, the reader finds no values in those. Lines cannot be
+    # removed prior to reading because they can be part of a quoted value
+    lineReader = filter(None, csv.reader(ioStream, dialect))
 
     firstRowLength = None
     if featureNames is True:
-- 
2.43.0


From 86a4ca413bb291aacf64f89c0c92ce63bb98b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 068/220] fix: the separator detected in a csv file is not part
 of a value

---
 nimble/core/_createHelpers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 0abfa4d..cb2a238 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2545,7 +2545,14 @@ def _detectDialectFromSeparator(ioStream, inputSeparator):
     _ = _advancePastComments(ioStream)
     if inputSeparator == 'automatic':
         # detect the delimiter from the first line of data
-        inputSeparator = csv.Sniffer().sniff(ioStream.readline()).delimiter
+        line = ioStream.readline()
+        try:
+            inputSeparator = csv.Sniffer().sniff(line).delimiter
+        except csv.Error:
+            inputSeparator = ','
+        # Without a separator (one feature), part of the value is detected
+        if inputSeparator.isalnum() or inputSeparator in '+-._"\'\n':
+            inputSeparator = ','
     elif len(inputSeparator) > 1:
         msg = "inputSeparator must be a single character"
         raise InvalidArgumentValue(msg)
-- 
2.43.0


From 8fa16f99b4991d02d9f832a7b5eed4495710c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 069/220] fix: csv values are not used as point names when
 pointNames is False

---
 nimble/core/_createHelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index cb2a238..776a339 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2447,6 +2447,7 @@ def _checkCSVForNames(ioStream, pointNames, featureNames, dialect):
     Finds the first two lines of data (ignoring comments) to determine whether
     point and/or feature names will be extracted from the data.
     """
+    detectPtNames = isinstance(pointNames, str) # 'automatic'
     startPosition = ioStream.tell()
     _ = _advancePastComments(ioStream)
     # Use the robust csv reader to read the first two lines (if available)
@@ -2482,7 +2483,7 @@ def _checkCSVForNames(ioStream, pointNames, featureNames, dialect):
         pointNames, featureNames, firstDataRow, secondDataRow)
 
     # possible pointNames if first was missing and rest could be featureNames
-    trackPoints = possiblePtNames and featureNames
+    trackPoints = possiblePtNames and detectPtNames and featureNames
 
     # reset everything to make the loop easier
     ioStream.seek(startPosition)
-- 
2.43.0


From f5f0f0a06d6df4367f02b583df60efa76ecdd124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 070/220] fix: numeric csv features can begin with missing
 values

---
 nimble/core/_createHelpers.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 776a339..200c5a8 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2394,7 +2394,8 @@ def _csvColTypeTracking(row, convertCols, nonNumericFeatures,
     be assumed to be strings instead. Once a column has been determined
     to have a str type, it is removed from convertCols because it will
     only store columns that require conversion and the columns index is
-    added to nonNumericFeatures.
+    added to nonNumericFeatures. The type of a feature that begins with
+    missing values is the type of the values which follow.
     """
     delKeys = []
     if convertCols:
@@ -2410,18 +2411,17 @@ def _csvColTypeTracking(row, convertCols, nonNumericFeatures,
                 elif colType is bool:
                     delKeys.append(idx)
 
-    if allEmptyFeatures:
-        for idx in allEmptyFeatures:
-            if row[idx] != '':
-                delKeys.append(idx)
-
-    if delKeys:
-        for key in delKeys:
-            if key in convertCols:
-                del convertCols[key]
-                nonNumericFeatures.add(key)
-            else:
-                allEmptyFeatures.remove(key)
+    for key in delKeys:
+        del convertCols[key]
+        nonNumericFeatures.add(key)
+
+    # the first value found in a feature begins the tracking of the type
+    for idx in [idx for idx in allEmptyFeatures if row[idx] != '']:
+        allEmptyFeatures.remove(idx)
+        colType = type(_intFloatBoolOrString(row[idx]))
+        if colType is not str:
+            convertCols[idx] = colType
+            nonNumericFeatures.remove(idx)
 
 def _colTypeConversion(row, convertCols, containsMissing):
     """
-- 
2.43.0


From 31c823b30d72eb8d2cdb1bddf49e85a0d154538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 071/220] fix: names and values written to a mtx file are
 restored when it is read

---
 nimble/core/_createHelpers.py    | 12 +++++++-----
 nimble/core/data/_dataHelpers.py | 10 ++++++++++
 nimble/core/data/base.py         |  8 ++++++++
 nimble/core/data/dataframe.py    |  9 ++++-----
 nimble/core/data/list.py         | 25 ++++++-------------------
 nimble/core/data/matrix.py       | 23 ++++-------------------
 nimble/core/data/sparse.py       | 26 ++++----------------------
 7 files changed, 43 insertions(+), 70 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 200c5a8..df33799 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2700,14 +2700,16 @@ def _loadmtxForAuto(ioStream, pointNames, featureNames, encoding):
             # strip '%#' from the begining of the line
             scrubbedLine = currLine[2:]
             # strip newline from end of line
-            scrubbedLine = scrubbedLine.rstrip()
-            names = list(map(lambda s: s.decode(encoding),
-                             scrubbedLine.split(b',')))
+            scrubbedLine = scrubbedLine.rstrip(b'\r\n').decode(encoding)
+            # an empty name represents a default name
+            names = [name if name else None
+                     for row in csv.reader([scrubbedLine]) for name in row]
+            names = names if any(names) and scrubbedLine.strip() else None
             if not seenPNames:
-                retPNames = names if names != [''] else None
+                retPNames = names
                 seenPNames = True
             else:
-                retFNames = names if names != [''] else None
+                retFNames = names
 
     ioStream.seek(startPosition)
     data = scipy.io.mmread(ioStream)
diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 7636eb4..33e44f1 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -802,6 +802,16 @@ def csvNames(names):
     """
     return [csvCommaFormat('' if name is None else name) for name in names]
 
+def mtxNames(names):
+    """
+    The comment of a matrix market file which contains the names.
+
+    Without names, the comment is empty.
+    """
+    if names is None:
+        return '#'
+    return '#' + ','.join(csvNames(names))
+
 def limitedTo2D(method):
     """
     Wrapper for operations only allowed in two-dimensions.
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 880c9be..781e2c0 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1904,6 +1904,14 @@ class Base(ABC):
             return self._saveCSV_implementation(
                 outPath, includePointNames, includeFeatureNames)
 
+        for axis, included in [(self.points, includePointNames),
+                               (self.features, includeFeatureNames)]:
+            if included and any(name is not None
+                                and ('\n' in name or '\r' in name)
+                                for name in axis.getNames()):
+                msg = 'Names that contain line breaks cannot be written to '
+                msg += 'the comments of a .mtx file'
+                raise InvalidArgumentValue(msg)
         return self._saveMTX_implementation(
             outPath, includePointNames, includeFeatureNames)
 
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 17e106f..09867ef 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -43,6 +43,7 @@ from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, isValid2DObject
 from ._dataHelpers import getFeatureDtypes
+from ._dataHelpers import mtxNames
 
 @inheritDocstringsFactory(Base)
 class DataFrame(Base):
@@ -195,11 +196,9 @@ class DataFrame(Base):
             msg = "scipy is not available"
             raise PackageException(msg)
 
-        comment = '#'
-        if includePointNames:
-            comment += ','.join(self.points.getNames())
-        if includeFeatureNames:
-            comment += '\n#' + ','.join(self.features.getNames())
+        pNames = self.points.getNames() if includePointNames else None
+        fNames = self.features.getNames() if includeFeatureNames else None
+        comment = mtxNames(pNames) + '\n' + mtxNames(fNames)
         scipy.io.mmwrite(outPath, self._data.astype(np.float64),
                          comment=comment)
 
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 2bffc08..4dc7950 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -35,7 +35,7 @@ from .views import BaseView
 from .listAxis import ListPoints, ListPointsView
 from .listAxis import ListFeatures, ListFeaturesView
 from ._dataHelpers import createDataNoValidation
-from ._dataHelpers import csvCommaFormat, csvNames
+from ._dataHelpers import csvCommaFormat, csvNames, mtxNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 
@@ -233,29 +233,16 @@ class List(Base):
         with open(outPath, 'w', encoding='utf-8') as outFile:
             outFile.write("%%MatrixMarket matrix array real general\n")
 
-            def writeNames(nameList):
-                for i, n in enumerate(nameList):
-                    if i == 0:
-                        outFile.write('%#')
-                    else:
-                        outFile.write(',')
-                    outFile.write(n)
-                outFile.write('\n')
-
-            if includePointNames:
-                writeNames(self.points.getNames())
-            else:
-                outFile.write('%#\n')
-            if includeFeatureNames:
-                writeNames(self.features.getNames())
-            else:
-                outFile.write('%#\n')
+            pNames = self.points.getNames() if includePointNames else None
+            outFile.write('%' + mtxNames(pNames) + '\n')
+            fNames = self.features.getNames() if includeFeatureNames else None
+            outFile.write('%' + mtxNames(fNames) + '\n')
 
             outFile.write(f"{len(self.points)} {len(self.features)}\n")
 
             for j in range(len(self.features)):
                 for i in range(len(self.points)):
-                    value = self._data[i][j]
+                    value = float(self._data[i][j])
                     outFile.write(str(value) + '\n')
 
     def _referenceFrom_implementation(self, other, kwargs):
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 42a85d6..0c866de 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -37,7 +37,7 @@ from .matrixAxis import MatrixPoints, MatrixPointsView
 from .matrixAxis import MatrixFeatures, MatrixFeaturesView
 from ._dataHelpers import allDataIdentical
 from ._dataHelpers import createDataNoValidation
-from ._dataHelpers import csvCommaFormat, csvNames
+from ._dataHelpers import csvCommaFormat, csvNames, mtxNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
@@ -156,24 +156,9 @@ class Matrix(Base):
             msg = "scipy is not available"
             raise PackageException(msg)
 
-        def makeNameString(count, namesGetter):
-            nameString = "#"
-            for i in range(count):
-                nameString += namesGetter(i)
-                if not i == count - 1:
-                    nameString += ','
-            return nameString
-
-        header = ''
-        if includePointNames:
-            header = makeNameString(len(self.points), self.points.getName)
-            header += '\n'
-        else:
-            header += '#\n'
-        if includeFeatureNames:
-            header += makeNameString(len(self.features), self.features.getName)
-        else:
-            header += '#\n'
+        pNames = self.points.getNames() if includePointNames else None
+        fNames = self.features.getNames() if includeFeatureNames else None
+        header = mtxNames(pNames) + '\n' + mtxNames(fNames)
 
         scipy.io.mmwrite(target=outPath, a=self._data.astype(np.float64),
                          comment=header)
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index a629515..5760465 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -40,7 +40,7 @@ from .sparseAxis import SparseFeatures, SparseFeaturesView
 from .stretch import StretchSparse
 from ._dataHelpers import allDataIdentical
 from ._dataHelpers import createDataNoValidation, limitObjectDtype
-from ._dataHelpers import csvCommaFormat, csvNames
+from ._dataHelpers import csvCommaFormat, csvNames, mtxNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
@@ -339,27 +339,9 @@ class Sparse(Base):
 
     def _saveMTX_implementation(self, outPath, includePointNames,
                                 includeFeatureNames):
-        def makeNameString(count, namesItoN):
-            nameString = "#"
-            for i in range(count):
-                nameString += namesItoN[i]
-                if not i == count - 1:
-                    nameString += ','
-            return nameString
-
-        header = ''
-        if includePointNames:
-            pNames = self.points.getNames()
-            header = makeNameString(len(self.points), pNames)
-            header += '\n'
-        else:
-            header += '#\n'
-        if includeFeatureNames:
-            fNames = self.features.getNames()
-            header += makeNameString(len(self.features), fNames)
-            header += '\n'
-        else:
-            header += '#\n'
+        pNames = self.points.getNames() if includePointNames else None
+        fNames = self.features.getNames() if includeFeatureNames else None
+        header = mtxNames(pNames) + '\n' + mtxNames(fNames)
 
         scipy.io.mmwrite(target=outPath, a=self._data.astype(np.float64),
                          comment=header)
-- 
2.43.0


From b70f4e53a172d591b278f786b8bb460989507eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 072/220] fix: points and names of a hdf5 file are restored in
 order when it is read

---
 nimble/core/_createHelpers.py | 11 ++++++++---
 nimble/core/data/base.py      | 26 +++++++++++++++++++-------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index df33799..ce6bae7 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2777,8 +2777,10 @@ def _loadhdf5ForAuto(ioStream, pointNames, featureNames):
                 msg += f"The data in key '{key}' had shape {ptShape} but the "
                 msg += f'first point had shape {expShape}'
                 raise InvalidArgumentValue(msg)
-            pnames.append(key)
+            # nimble stores any name that is not able to be a key
+            pnames.append(val.attrs.get('pointName', key) or None)
             data.append(ptData)
+        keepSinglePoint = 'nimblePoints' in hdf.attrs
 
     # by default 'automatic' will only assign point names if we identify
     # this was a file generated by nimble where includeNames was True.
@@ -2790,8 +2792,11 @@ def _loadhdf5ForAuto(ioStream, pointNames, featureNames):
         pointNames = None
     # if we only have one Dataset, we will default to returning only the
     # array contained in the Dataset unless the pointNames indicate that
-    # we should keep the array contained in a single point
-    if len(data) == 1 and pointNames and pointNames is not True:
+    # we should keep the array contained in a single point or nimble saved an
+    # object with one point.
+    if keepSinglePoint:
+        pass
+    elif len(data) == 1 and pointNames and pointNames is not True:
         numNames = len(pointNames)
         innerShape = data[0].shape[0]
         # point names are for the array in the dataset
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 781e2c0..34b94e6 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1928,18 +1928,30 @@ class Base(ABC):
         if not h5py.nimbleAccessible():
             msg = 'h5py must be installed to write to an hdf file'
             raise PackageException(msg)
+        pnames = [None] * len(self.points)
+        userblockSize = 0
         if includePointNames:
             pnames = self.points.getNames()
             userblockSize = 512
-        else:
-            pnames = [str(i) for i in range(len(self.points))]
-            userblockSize = 0
-        with h5py.File(outPath, 'w', userblock_size=userblockSize) as hdf:
-            for name, point in zip(pnames, self.points):
+        outputAs1D = len(self._dims) == 2
+        # track_order because points are otherwise read in alphabetical order
+        with h5py.File(outPath, 'w', userblock_size=userblockSize,
+                       track_order=True) as hdf:
+            # each Dataset is a point, even if there is only one
+            hdf.attrs['nimblePoints'] = len(self.points)
+            for i, (name, point) in enumerate(zip(pnames, self.points)):
                 point = point.copy() # do not convert this object's data
                 point._convertToNumericTypes()
-                asArray = point.copy('numpy array')
-                _ = hdf.create_dataset(name, data=asArray)
+                asArray = point.copy('numpy array', outputAs1D=outputAs1D)
+                key = name
+                # default names and paths cannot be keys
+                if name is None or '/' in name or name in ('', '.'):
+                    key = str(i)
+                    while key in pnames:
+                        key = '_' + key
+                dataset = hdf.create_dataset(key, data=asArray)
+                if includePointNames and key != name:
+                    dataset.attrs['pointName'] = '' if name is None else name
                 hdf.flush()
         if includePointNames:
             with open(outPath, 'rb+') as f:
-- 
2.43.0


From 85035eb287fc84147c33ec2bcadff4b128cdd73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 073/220] fix: a DataFrame feature of missing values is kept in
 a csv file

---
 nimble/core/data/dataframe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 09867ef..f092e54 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -170,7 +170,8 @@ class DataFrame(Base):
         # the labels of the stored data do not change, even if writing fails
         data = self._data.copy(deep=False)
         if includePointNames:
-            data.index = self.points.getNames()
+            data.index = ['' if name is None else name
+                          for name in self.points.getNames()]
             first = data.index[0]
         else:
             first = data.iloc[0, 0]
@@ -183,7 +184,9 @@ class DataFrame(Base):
             if includeFeatureNames:
                 self._writeFeatureNamesToCSV(outFile, includePointNames)
 
+            # na_rep because a feature without any values is not loaded
             data.to_csv(outFile, index=includePointNames, header=False,
+                        na_rep='nan',
                         quoting=quoting)
 
     def _saveMTX_implementation(self, outPath, includePointNames,
-- 
2.43.0


From 633286897ae4778625844fdf8e745a99d93be3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 074/220] fix: loading a csv file does not modify the dialects
 of the csv module

---
 nimble/core/_createHelpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index ce6bae7..73a104f 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2560,8 +2560,10 @@ def _detectDialectFromSeparator(ioStream, inputSeparator):
     if inputSeparator == '\t':
         dialect = csv.excel_tab
     else:
-        dialect = csv.excel
-        dialect.delimiter = inputSeparator
+        # the dialects of the csv module are shared, so cannot be modified
+        class dialect(csv.excel):
+            """The excel dialect with the separator of the file."""
+            delimiter = inputSeparator
 
     # reset everything to make the loop easier
     ioStream.seek(startPosition)
-- 
2.43.0


From 0bd82b36ded1c34509a5d1b684d3445b58eca1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 075/220] fix: names provided for one axis of a csv file
 without feature names are kept

---
 nimble/core/_createHelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 73a104f..94990f1 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -175,8 +175,9 @@ def autoDetectNamesFromRaw(pointNames, featureNames, firstValues,
     """
     Determine if first row or column contains names.
     """
-    failPN = isinstance(pointNames, bool) and pointNames
-    failFN = isinstance(featureNames, bool) and featureNames
+    # names which were provided are kept, 'automatic' finds no names
+    failPN = False if isinstance(pointNames, str) else pointNames
+    failFN = False if isinstance(featureNames, str) else featureNames
     if isEmptyRaw(firstValues):
         return (failPN, failFN)
     if isEmptyRaw(secondValues):
-- 
2.43.0


From c6dd652d0c74531c49ad085c83c9a910218c9505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 076/220] fix: treatAsMissing may be None when loading a csv
 file

---
 nimble/core/_createHelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 94990f1..278103f 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2267,7 +2267,8 @@ def createDataFromFile(
     with ioStream as toLoad:
         selectSuccess = False
         if extension == 'csv':
-            emptyIsMissing = '' in treatAsMissing
+            emptyIsMissing = (treatAsMissing is not None
+                              and '' in treatAsMissing)
             loaded = _loadcsvUsingPython(
                 toLoad, pointNames, featureNames, ignoreNonNumericalFeatures,
                 keepPoints, keepFeatures, inputSeparator, emptyIsMissing)
-- 
2.43.0


From cd76b2061a3b15dd2da88c551ccd7dca8b409946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 077/220] fix: the first index after the features of a csv file
 is refused as the others

---
 nimble/core/_createHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 278103f..5bfe5fb 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2970,7 +2970,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
         if not keepFeaturesValidated:
             if any(val >= len(row) for val in keepFeatures):
                 for val in keepFeatures:
-                    if val > len(row):
+                    if val >= len(row):
                         msg = "The index " + str(val) + " is outside the "
                         msg += "range of possible indices, 0 to "
                         msg += str(len(row) - 1)
-- 
2.43.0


From 1595b36c630e786471aa9c46de8394ed86088f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 078/220] fix: the wrong number of pointNames for a csv file is
 refused, not an IndexError

---
 nimble/core/_createHelpers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 5bfe5fb..18f9eb3 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2950,7 +2950,8 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
         if pointNames is True or trackPoints:
             ptName = row[0]
             row = row[1:]
-        elif pointNames and len(pointNames) > len(keepPoints):
+        elif (limitPoints and pointNames and i < len(pointNames)
+              and len(pointNames) > len(keepPoints)):
             ptName = pointNames[i]
         else:
             ptName = None
@@ -3047,6 +3048,13 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
             and len(retData) == totalPoints == len(keepPoints)):
         _raiseKeepLengthConflict('point')
 
+    if (limitPoints and pointNames and pointNames is not True
+            and len(pointNames) not in (totalPoints, len(keepPoints))):
+        msg = f"The length of the pointNames ({len(pointNames)}) must match "
+        msg += f"the points in the data ({totalPoints}) or in keepPoints "
+        msg += f"({len(keepPoints)})"
+        raise InvalidArgumentValue(msg)
+
     if limitPoints and len(keepPoints) != len(locatedPoints):
         unlocated = []
         for ptID in keepPoints:
-- 
2.43.0


From 69e87e18e3fa7674ae7b97455341c6d31e69f7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 079/220] fix: a first csv column with repeated values is
 loaded as a feature of its type

---
 nimble/core/_createHelpers.py | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 18f9eb3..bf01f30 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2485,12 +2485,17 @@ def _checkCSVForNames(ioStream, pointNames, featureNames, dialect):
         pointNames, featureNames, firstDataRow, secondDataRow)
 
     # possible pointNames if first was missing and rest could be featureNames
-    trackPoints = possiblePtNames and detectPtNames and featureNames
+    # provided that the first value of each of the points is unique
+    if possiblePtNames and detectPtNames and featureNames is True:
+        ioStream.seek(startPosition)
+        _ = _advancePastComments(ioStream)
+        firstValues = [r[0] for r in csv.reader(ioStream, dialect) if r][1:]
+        pointNames = len(firstValues) == len(set(firstValues))
 
     # reset everything to make the loop easier
     ioStream.seek(startPosition)
 
-    return pointNames, featureNames, trackPoints
+    return pointNames, featureNames
 
 
 def _advancePastComments(ioStream):
@@ -2879,7 +2884,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
         function call.
     """
     dialect = _detectDialectFromSeparator(ioStream, inputSeparator)
-    pointNames, featureNames, trackPoints = _checkCSVForNames(
+    pointNames, featureNames = _checkCSVForNames(
         ioStream, pointNames, featureNames, dialect)
 
     pointNames = _namesDictToList(pointNames, 'point', 'pointNames')
@@ -2895,7 +2900,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     firstRowLength = None
     if featureNames is True:
         retFNames = [v if v else None for v in next(lineReader)]
-        if pointNames is True or trackPoints:
+        if pointNames is True:
             retFNames = retFNames[1:]
         firstRowLength = len(retFNames)
         lengthDefiningLine = skippedLines
@@ -2944,10 +2949,9 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     convertCols = None
     nonNumericFeatures = set()
     allEmptyFeatures = set()
-    possiblePtNames = set()
     # lineReader is now at the first line of data
     for i, row in enumerate(lineReader):
-        if pointNames is True or trackPoints:
+        if pointNames is True:
             ptName = row[0]
             row = row[1:]
         elif (limitPoints and pointNames and i < len(pointNames)
@@ -2955,19 +2959,6 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
             ptName = pointNames[i]
         else:
             ptName = None
-        if trackPoints:
-            if ptName in possiblePtNames:
-                # duplicate value, need to add possible names back in as data
-                for idx, name in enumerate(extractedPointNames):
-                    if retData[idx] is not None:
-                        retData[idx].insert(0, name)
-                row.insert(0, ptName)
-                retFNames.insert(0, None)
-                firstRowLength += 1
-                trackPoints = False
-                pointNames = False
-            else:
-                possiblePtNames.add(ptName)
         if not keepFeaturesValidated:
             if any(val >= len(row) for val in keepFeatures):
                 for val in keepFeatures:
@@ -3020,7 +3011,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
 
             if keepPoints == 'all':
                 retData.append(row)
-                if pointNames is True or trackPoints:
+                if pointNames is True:
                     extractedPointNames.append(ptName)
             else:
                 if ptName is not None and ptName in keepPoints:
@@ -3032,7 +3023,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
                 location = keepPoints.index(locate)
                 locatedPoints.append(locate)
                 retData[location] = row
-                if pointNames is True or trackPoints:
+                if pointNames is True:
                     extractedPointNames[location] = ptName
 
         totalPoints = i + 1
@@ -3041,8 +3032,6 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
         for idx in allEmptyFeatures:
             convertCols[idx] = float
             nonNumericFeatures.remove(idx)
-    if trackPoints:
-        pointNames = trackPoints
     if (keepPoints != 'all' and pointNames
             and pointNames is not True
             and len(retData) == totalPoints == len(keepPoints)):
-- 
2.43.0


From a0288b4d36afefead5d50ae5d724c324a57322e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 080/220] fix: names can be extracted from a list of tuples

---
 nimble/core/_createHelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index bf01f30..b406464 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -248,8 +248,9 @@ def extractNamesFromRawList(rawData, pnamesID, fnamesID, copied):
     pnamesID, fnamesID = autoDetectNamesFromRaw(pnamesID, fnamesID, firstRow,
                                                 secondRow)
 
-    if not copied and (pnamesID is True or fnamesID is True):
-        rawData = [lst.copy() for lst in rawData]
+    if ((not copied or not isinstance(rawData[0], list))
+            and (pnamesID is True or fnamesID is True)):
+        rawData = [list(lst) for lst in rawData]
         copied = True
     retPNames = None
     if pnamesID is True:
-- 
2.43.0


From 8aadec19158da05182a33b4e49de5925ecc66868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 081/220] fix: names and selections for data with
 rowsArePoints=False apply to the result

---
 nimble/core/_createHelpers.py | 39 ++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index b406464..5845f75 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1624,18 +1624,23 @@ def initDataObject(
     initMethod = getattr(nimble.core.data, returnType)
     # if limiting data based on keepPoints or keepFeatures,
     # delay name setting because names may be a subset
-    if keepPoints == 'all':
-        usePNames = pointNames
-    else:
+    if (limitPoints if rowsArePoints else limitFeatures):
         usePNames = True if pointNames is True else None
-    if keepFeatures == 'all':
-        useFNames = featureNames
     else:
+        usePNames = pointNames
+    if (limitFeatures if rowsArePoints else limitPoints):
         useFNames = True if featureNames is True else None
+    else:
+        useFNames = featureNames
 
     ret = initMethod(rawData, pointNames=usePNames, featureNames=useFNames,
                      name=name, paths=paths, reuseData=True, **kwargs)
 
+    # everything below applies to the points and features of the result
+    if not rowsArePoints:
+        ret.transpose(useLog=False)
+        pointNames, featureNames = featureNames, pointNames
+
     def makeCmp(keepList, outerObj, axis):
         if axis == 'point':
             def indexGetter(x):
@@ -1728,10 +1733,7 @@ def initDataObject(
             convertToType = convertToType[0]
 
     if convertToType is not None:
-        ret._data = elementTypeConvert(ret._data, convertToType)        
-        
-    if not rowsArePoints:
-        ret.transpose(useLog=False)
+        ret._data = elementTypeConvert(ret._data, convertToType)
 
     return ret
 
@@ -2265,22 +2267,31 @@ def createDataFromFile(
         if len(split) > 1 and split[1].lower() in supportedExtensions:
             extension = split[1].lower()
 
+    # the names and selections apply to the points and features of the result,
+    # which are the columns and rows of the file when rowsArePoints is False
+    names = [pointNames, featureNames]
+    keep = [keepPoints, keepFeatures]
+    if not rowsArePoints:
+        names.reverse()
+        keep.reverse()
+
     with ioStream as toLoad:
         selectSuccess = False
         if extension == 'csv':
             emptyIsMissing = (treatAsMissing is not None
                               and '' in treatAsMissing)
             loaded = _loadcsvUsingPython(
-                toLoad, pointNames, featureNames, ignoreNonNumericalFeatures,
-                keepPoints, keepFeatures, inputSeparator, emptyIsMissing)
+                toLoad, *names, ignoreNonNumericalFeatures, *keep,
+                inputSeparator, emptyIsMissing)
             selectSuccess = True
         elif extension == 'mtx':
-            loaded = _loadmtxForAuto(toLoad, pointNames, featureNames,
-                                     encoding)
+            loaded = _loadmtxForAuto(toLoad, *names, encoding)
         elif extension in ['hdf5', 'h5']: # h5 and hdf5 are synonymous
-            loaded = _loadhdf5ForAuto(toLoad, pointNames, featureNames)
+            loaded = _loadhdf5ForAuto(toLoad, *names)
 
     retData, retPNames, retFNames = loaded
+    if not rowsArePoints:
+        retPNames, retFNames = retFNames, retPNames
 
     if path is None:
         pathsToPass = (None, None)
-- 
2.43.0


From b3188fa93518db1b34ec8284b3b984b55994e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 082/220] fix: empty values in numeric features of a csv file
 are replaced when missing

---
 nimble/core/_createHelpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 5845f75..0daeea9 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2284,6 +2284,9 @@ def createDataFromFile(
                 toLoad, *names, ignoreNonNumericalFeatures, *keep,
                 inputSeparator, emptyIsMissing)
             selectSuccess = True
+            # empty values in numeric features have been loaded as nan
+            if emptyIsMissing:
+                treatAsMissing = [*treatAsMissing, np.nan]
         elif extension == 'mtx':
             loaded = _loadmtxForAuto(toLoad, *names, encoding)
         elif extension in ['hdf5', 'h5']: # h5 and hdf5 are synonymous
-- 
2.43.0


From cd5c3801bf8e03c5ba6dc66ff4b35f775645f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 083/220] fix: negative indices to keep are refused also when
 names are known

---
 nimble/core/_createHelpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 0daeea9..c951559 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1317,6 +1317,8 @@ def getKeepIndexValues(axisObj, keepList):
     represent the same point/feature.
     """
     cleaned = []
+    _keepIndexValuesValidation(
+        axisObj._axis, [v for v in keepList if not isinstance(v, str)], None)
     for val in keepList:
         converted = axisObj.getIndex(val)
         if converted not in cleaned:
-- 
2.43.0


From 540757af4f2b6be07f611ca52cd7802ad02b10be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 084/220] fix: missing values replaced by zero are not stored
 in sparse data

---
 nimble/core/_createHelpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index c951559..be540fb 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1031,6 +1031,8 @@ def _replaceMissingData(rawData, treatAsMissing, replaceMissingWith, copied):
                 rawData = rawData.copy()
                 copied = True
             rawData.data = replaceNumpyValues(rawData.data, replaceLocs)
+            rawData = rawData.tocoo(copy=False)
+            rawData.eliminate_zeros()
     elif _isPandasDense(rawData):
         if len(rawData.to_numpy()) > 0:
             replaceLocs = getNumpyReplaceLocations(rawData.to_numpy())
-- 
2.43.0


From 99cb0992ce712bd33a43d8d8b5aa98ebb13f2562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 085/220] fix: False is given to element functions which
 preserve zero

---
 nimble/core/data/_dataHelpers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 33e44f1..19ddccc 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -574,8 +574,11 @@ def validateElementFunction(func, preserveZeros, skipNoneReturnValues,
     Adjust user function based on preserveZeros and skipNoneReturnValues
     parameters and validate the returned element types.
     """
+    zerosRequested = preserveZeros
+
     def elementValidated(value, *args):
-        if preserveZeros and value == 0:
+        # when not requested, any value (i.e. False) has its own result
+        if zerosRequested and value == 0:
             return float(0)
         ret = func(value, *args)
         if ret is None and skipNoneReturnValues:
@@ -611,7 +614,7 @@ def validateElementFunction(func, preserveZeros, skipNoneReturnValues,
         # see if we can preserve zeros even if not explicitly set
         if not preserveZeros:
             try:
-                if func(0) == 0:
+                if func(0) == 0 and func(False) == 0:
                     preserveZeros = True
             # since it is a user function we cannot predict the exception type
             except Exception: # pylint: disable=broad-except
-- 
2.43.0


From 0b547f54306be47cdee6a2d311b08ae5f85e974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 086/220] fix: numpy booleans are matched as true and false

---
 nimble/match/match.py | 4 ++--
 nimble/match/query.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nimble/match/match.py b/nimble/match/match.py
index 3175baf..da15aa7 100644
--- a/nimble/match/match.py
+++ b/nimble/match/match.py
@@ -441,7 +441,7 @@ def true(value):
     >>> true('True')
     False
     """
-    return boolean(value) and value is True
+    return boolean(value) and bool(value)
 
 def false(value):
     """
@@ -473,7 +473,7 @@ def false(value):
     >>> false('False')
     False
     """
-    return boolean(value) and value is False
+    return boolean(value) and not value
 
 def anyValues(match):
     """
diff --git a/nimble/match/query.py b/nimble/match/query.py
index 03246ef..de6116e 100644
--- a/nimble/match/query.py
+++ b/nimble/match/query.py
@@ -115,8 +115,8 @@ class QueryString:
     >
     """
     _accepted = {n: getattr(match, n) for n in _setAll(vars(match))}
-    _accepted['True'] = lambda e: e is True
-    _accepted['False'] = lambda e: e is False
+    _accepted['True'] = match.true
+    _accepted['False'] = match.false
     _accepted['None'] = lambda e: e is None
 
     def __init__(self, string, elementQuery=None):
-- 
2.43.0


From c6b0507c387e1bee724aac2e529f8eef446f113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 087/220] fix: matching accepts queries for objects with a
 single point or feature

---
 nimble/core/data/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 6a9b1b9..91aec92 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -526,6 +526,8 @@ class Axis(ABC):
         return ret
 
     def _matching(self, function):
+        if isinstance(function, str):
+            function = self._axisQueryFunction(function)
         wrappedMatch = wrapMatchFunctionFactory(function, elementwise=False)
 
         ret = self._calculate_backend(wrappedMatch, None)
-- 
2.43.0


From 864dece161079e33ee00b69160a42acc68d68f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 088/220] fix: fill functions name the right axis when they
 refuse a point

---
 nimble/fill/fill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/fill/fill.py b/nimble/fill/fill.py
index b5b8a4a..e86726d 100644
--- a/nimble/fill/fill.py
+++ b/nimble/fill/fill.py
@@ -543,7 +543,7 @@ def getAxis(vector):
     """
     Helper function to determine if the vector is a point or feature.
     """
-    return 'point' if vector.points == 1 else 'feature'
+    return 'point' if len(vector.points) == 1 else 'feature'
 
 def getNameAndIndex(axis, vector):
     """
-- 
2.43.0


From 735905e1a26617e6c13b3116085de6f99d1a38ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 089/220] fix: fillMatching pairs each limited vector with its
 own boolean matches

---
 nimble/core/data/axis.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 91aec92..d868b6b 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -780,14 +780,13 @@ class Axis(ABC):
             fillFunc = fillWith
 
         # if matchingElements is a boolean matrix we need to provide the
-        # corresponding boolean vector for the vector passed to _transform
-        try:
-            idxOrder = iter(limitTo)
-        except TypeError:
-            if limitTo is None:
-                idxOrder = iter(range(len(self)))
-            else: # limitTo is a single identifier
-                idxOrder = iter([self._getIndex(limitTo)])
+        # corresponding boolean vector for the vector passed to _transform,
+        # which always visits the vectors in the order of the axis
+        if limitTo is None:
+            idxOrder = iter(range(len(self)))
+        else:
+            idxOrder = iter(sorted(set(
+                constructIndicesList(self._base, self._axis, limitTo))))
 
         @functools.wraps(fillFunc)
         def fillFunction(vector):
-- 
2.43.0


From 71680d891fb75b6057c1a8b67d0469df1eeb2464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 090/220] fix: nimble.fillMatching compares only the elements
 of a boolean object

---
 nimble/core/learn.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index 949f571..ff055f0 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -639,7 +639,6 @@ def fillMatching(learnerName, matchingElements, trainX, arguments=None,
         msg += 'because nimble handles alternative values via its '
         msg += 'matchingElements argument'
         raise InvalidArgumentValue(msg.format(objectName=objectName))
-    checkNans = True
     if isinstance(matchingElements, nimble.core.data.Base):
         if matchingElements.shape != trainX.shape:
             msg = 'The shape of matchingElements and trainX must match'
@@ -648,13 +647,14 @@ def fillMatching(learnerName, matchingElements, trainX, arguments=None,
     else:
         matchingElements = match._convertMatchToFunction(matchingElements)
         matchMatrix = trainX.matchingElements(matchingElements, useLog=False)
-        if matchingElements(np.nan):
-            checkNans = False
-    if checkNans:
-        nanLocs = trainX.matchingElements(match.missing, useLog=False)
-        if matchMatrix | nanLocs != matchMatrix:
-            msg = "filling requires all unmatched elements to be non-nan"
-            raise ImproperObjectAction(msg)
+    # only the elements are compared, matchMatrix may be named or stored
+    # differently than trainX
+    unmatchedNans = trainX.matchingElements(
+        lambda elem, i, j: match.missing(elem) and not matchMatrix[i, j],
+        useLog=False)
+    if any(unmatchedNans.iterateElements()):
+        msg = "filling requires all unmatched elements to be non-nan"
+        raise ImproperObjectAction(msg)
 
     # do not fill actual trainX with nans in case trainAndApply fails
     toFill = trainX.copy()
-- 
2.43.0


From 1d4470c4ac51425982fbbba64ff28b14a5e5d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 091/220] fix: nimble.fillMatching refuses results whose shape
 differs

---
 nimble/core/learn.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index ff055f0..09e295d 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -660,6 +660,13 @@ def fillMatching(learnerName, matchingElements, trainX, arguments=None,
     toFill = trainX.copy()
     toFill.features.fillMatching(np.nan, matchMatrix, useLog=False)
     filled = trainAndApply(learnerName, toFill, arguments=merged, useLog=False)
+    if filled.shape != trainX.shape:
+        # the elements can not be located (some learners discard features
+        # which have no values)
+        msg = 'The learner must return an object with the same shape as '
+        msg += 'trainX but the shape of the returned object was '
+        msg += f'{filled.shape}'
+        raise InvalidArgumentValue(msg)
 
     def transformer(elem, i, j):
         if matchMatrix[i, j]:
-- 
2.43.0


From f5f080243d427a9ea0d05b7dcd140b4109ae2b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 092/220] fix: groupByFeature accepts missing and infinite
 values as groups

---
 nimble/core/data/base.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 34b94e6..11f3eb0 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1381,19 +1381,22 @@ class Base(ABC):
         # Numbers coming from a float dtyped object that are equivalent to
         # ints are assumed to be int valued labels, and formatted as such.
         def prettyKey(val):
-            undefined = ['', np.NaN, None, np.nan, np.NAN]
             if isinstance(val, str):
                 return val
-            if isinstance(val, numbers.Number):
-                if val in undefined:
-                    # check that the feature axis doesn't have that string.
-                    if "NaN" not in list(self.features.copy(by)):
-                        return "NaN"
-                    return 'numpy.nan'
+            if match.missing(val):
+                return missingKey
+            if isinstance(val, numbers.Real) and np.isfinite(val):
                 iVal = int(val)
                 return iVal if iVal == val else val
             return val
 
+        # check that the features do not have the string used for missing
+        by_ = [by] if isinstance(by, (str, numbers.Number)) else by
+        missingKey = 'NaN'
+        if any(isinstance(val, str) and val == missingKey for ft in by_
+               for val in self.features[ft].iterateElements()):
+            missingKey = 'numpy.nan'
+
         def findKey1(point, by):#if by is a string or int
             return prettyKey(point[by])
 
-- 
2.43.0


From 6fc50ae4e2ffb1845d20da630314b83806017e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 093/220] fix: features.normalize accepts one identifier along
 with applyResultTo

---
 nimble/core/data/features.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 0fbe027..4b87526 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -37,6 +37,7 @@ from nimble.core.logger import handleLogging
 from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
 from nimble.exceptions import InvalidArgumentValueCombination
 from nimble._utility import prettyListString, quoteStrings
+from ._dataHelpers import constructIndicesList
 from ._dataHelpers import limitedTo2D, prepLog
 
 class Features(ABC):
@@ -2003,7 +2004,8 @@ class Features(ABC):
                 msg += 'featureNames of the calling object'
                 raise InvalidArgumentValue(msg)
             if features is not None:
-                features = list(map(self._getIndex, features))
+                features = constructIndicesList(self._base, self._axis,
+                                                features)
             zipFeatures = zip(self, applyResultTo.features)
             for i, (ft1, ft2) in enumerate(zipFeatures):
                 if features is None or i in features:
-- 
2.43.0


From c38b62eed42160e46092e750f7aa4cafe9674a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 094/220] fix: the accepted statistic "count" can be calculated

---
 nimble/_utility.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/_utility.py b/nimble/_utility.py
index 4fdce96..bbbad36 100644
--- a/nimble/_utility.py
+++ b/nimble/_utility.py
@@ -606,6 +606,8 @@ def _getStatsFunction(statsFuncName):
         toCall = nimble.calculate.mode
     elif statsFuncName == 'sum':
         toCall = nimble.calculate.sum
+    elif statsFuncName == 'count':
+        toCall = nimble.calculate.count
     elif statsFuncName == 'variance':
         toCall = nimble.calculate.variance
     elif statsFuncName == 'uniquecount':
-- 
2.43.0


From 6222e7cc7a71d3333779e4124f7f0d2389c2ac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 095/220] fix: calculate.sum of non-numeric values is nan

---
 nimble/calculate/statistic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/calculate/statistic.py b/nimble/calculate/statistic.py
index 5666e07..2ab9df7 100644
--- a/nimble/calculate/statistic.py
+++ b/nimble/calculate/statistic.py
@@ -506,6 +506,7 @@ def count(values):
     """
     return _sum(1 for _ in values.iterateElements(only=nonMissing))
 
+@numericRequired
 def sum(values): # pylint: disable=redefined-builtin
     """
     The sum of the values in the vector.
-- 
2.43.0


From 946948807c0d788dae11b56f33df99643d3b18f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 096/220] fix: calculate.quartiles of boolean values

---
 nimble/calculate/statistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/calculate/statistic.py b/nimble/calculate/statistic.py
index 2ab9df7..1079735 100644
--- a/nimble/calculate/statistic.py
+++ b/nimble/calculate/statistic.py
@@ -425,7 +425,7 @@ def quartiles(values):
     (8.5, 13.0, 17.5)
     """
     # copy as horizontal array to use for intermediate calculations
-    values = dtypeConvert(values.copy(to="numpyarray", outputAs1D=True))
+    values = values.copy(to="numpyarray", outputAs1D=True).astype(np.float64)
     ret = np.nanpercentile(values, (25, 50, 75), overwrite_input=True)
     return tuple(ret)
 
-- 
2.43.0


From 629faabffc08e550ee4d3497c09923b3df875236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 097/220] fix: percentileNormalize does not count missing
 values

---
 nimble/calculate/normalize.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/nimble/calculate/normalize.py b/nimble/calculate/normalize.py
index 3c59fd0..512d2ce 100644
--- a/nimble/calculate/normalize.py
+++ b/nimble/calculate/normalize.py
@@ -234,14 +234,12 @@ def percentileNormalize(values1, values2=None):
 
     # index locations of sorted values
     argsort = np.argsort(arr1)
-    anyNan = any(map(np.isnan, arr1))
-    if anyNan: # ignore index for nan
-        epsilon = 1 / (len(arr1) - 2)
-    else:
-        epsilon = 1 / (len(arr1) - 1)
+    # ignore nans, they are always the last of the sorted values
+    numValues = np.count_nonzero(~np.isnan(arr1))
+    argsort = argsort[:numValues]
+    epsilon = 1 / (numValues - 1) if numValues > 1 else 0
     for i, idx in enumerate(argsort):
-        if not np.isnan(percentiles[idx]):
-            percentiles[idx] = i * epsilon
+        percentiles[idx] = i * epsilon
 
     # adjust percentiles for duplicate values
     for v in np.unique(arr1):
@@ -263,8 +261,8 @@ def percentileNormalize(values1, values2=None):
 
     sortedArr1 = arr1[argsort]
     sortedPercs = percentiles[argsort]
-    minimum = np.nanmin(sortedArr1)
-    maximum = np.nanmax(sortedArr1)
+    minimum = sortedArr1[0] if numValues else np.nan
+    maximum = sortedArr1[-1] if numValues else np.nan
 
     interpVal = functools.partial(_interpPercentile, minimum, maximum,
                                   sortedArr1, sortedPercs)
@@ -278,8 +276,8 @@ def percentileNormalize(values1, values2=None):
     return values1Percentiles, values2Percentiles
 
 def _interpPercentile(minimum, maximum, sortedValues, sortedPercentiles, val):
-    if np.isnan(val):
-        return val
+    if np.isnan(val) or np.isnan(minimum):
+        return np.nan
     if val == minimum == maximum:
         return 0.5 # all values were equal
     if val <= minimum:
-- 
2.43.0


From 77543c1766a0bc55deab1ac31e9edc9b677cdd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 098/220] fix: percentileNormalize gives values2 the percentile
 of an equal minimum or maximum

---
 nimble/calculate/normalize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nimble/calculate/normalize.py b/nimble/calculate/normalize.py
index 512d2ce..064b8c4 100644
--- a/nimble/calculate/normalize.py
+++ b/nimble/calculate/normalize.py
@@ -280,15 +280,15 @@ def _interpPercentile(minimum, maximum, sortedValues, sortedPercentiles, val):
         return np.nan
     if val == minimum == maximum:
         return 0.5 # all values were equal
-    if val <= minimum:
+    if val < minimum:
         return 0.0
-    if val >= maximum:
+    if val > maximum:
         return 1.0
     idx = np.searchsorted(sortedValues, val) # binary search
+    if val == sortedValues[idx]:
+        return sortedPercentiles[idx]
     leftVal, rightVal = sortedValues[idx - 1:idx + 1]
     leftPerc, rightPerc = sortedPercentiles[idx - 1:idx + 1]
-    if val == rightVal:
-        return rightPerc
     fractionToNext = (val - leftVal) / (rightVal - leftVal)
     percDist = rightPerc - leftPerc
     return float(leftPerc + percDist * fractionToNext)
-- 
2.43.0


From 4be5b517babab9b7049a1fd9bb50bba4eafbee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 099/220] fix: transformFeatureToIntegers gives missing values
 one integer

---
 nimble/core/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 11f3eb0..af9e784 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -655,6 +655,8 @@ class Base(ABC):
             integerValue = 0
             mapped = []
             for val in ft:
+                if match.missing(val):
+                    val = np.nan # one key for all missing values
                 if val in mapping:
                     mapped.append(mapping[val])
                 elif val == 0:
-- 
2.43.0


From 2ff0b98af99dba63acda17bac33dad2b4cf4c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 100/220] fix: replaceFeatureWithBinaryFeatures of missing
 values and of unnamed features

---
 nimble/core/data/_dataHelpers.py |  9 +++++++++
 nimble/core/data/base.py         | 15 +++++++--------
 nimble/core/data/dataframe.py    |  3 ++-
 nimble/core/data/list.py         |  3 ++-
 nimble/core/data/matrix.py       |  3 ++-
 nimble/core/data/sparse.py       |  3 ++-
 6 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 19ddccc..8068618 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1252,6 +1252,15 @@ def getFeatureDtypes(obj):
 
     return tuple(dtypeList)
 
+def missingAsNan(value):
+    """
+    The value, or np.nan for every missing value.
+
+    Different nan objects are never equal, so missing values can only be
+    looked up (in a dict or set) if all are represented by the same object.
+    """
+    return np.nan if match.missing(value) else value
+
 def prepLog(method):
     """
     Provides logging for methods that manipulate data.
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index af9e784..76555a8 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -70,7 +70,7 @@ from ._dataHelpers import looksNumeric, checkNumeric
 from ._dataHelpers import mergeNames, mergeNonDefaultNames
 from ._dataHelpers import binaryOpNamePathMerge
 from ._dataHelpers import indicesSplit
-from ._dataHelpers import prepLog
+from ._dataHelpers import prepLog, missingAsNan
 
 
 def to2args(f):
@@ -573,7 +573,9 @@ class Base(ABC):
 
         replace = self.features.extract([index], useLog=False)
 
-        uniqueVals = replace.countUniqueElements().keys()
+        # all missing values are the same value
+        uniqueVals = list(dict.fromkeys(
+            map(missingAsNan, replace.countUniqueElements())))
         uniqueIdx = {key: i for i, key in enumerate(uniqueVals)}
 
         binaryObj = replace._replaceFeatureWithBinaryFeatures_implementation(
@@ -583,10 +585,8 @@ class Base(ABC):
                                   useLog=False)
         ftNames = []
 
-        if replace.features._namesCreated():
-            prefix = replace.features.getName(0) + "="
-        else:
-            prefix = str(index) + '='
+        name = replace.features.getName(0)
+        prefix = (str(index) if name is None else name) + '='
         for val in uniqueVals:
             ftNames.append(prefix + str(val))
         binaryObj.features.setNames(ftNames, useLog=False)
@@ -655,8 +655,7 @@ class Base(ABC):
             integerValue = 0
             mapped = []
             for val in ft:
-                if match.missing(val):
-                    val = np.nan # one key for all missing values
+                val = missingAsNan(val) # one key for all missing values
                 if val in mapping:
                     mapped.append(mapping[val])
                 elif val == 0:
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index f092e54..1fae49a 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -44,6 +44,7 @@ from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, isValid2DObject
 from ._dataHelpers import getFeatureDtypes
 from ._dataHelpers import mtxNames
+from ._dataHelpers import missingAsNan
 
 @inheritDocstringsFactory(Base)
 class DataFrame(Base):
@@ -418,7 +419,7 @@ class DataFrame(Base):
     def _replaceFeatureWithBinaryFeatures_implementation(self, uniqueIdx):
         toFill = np.zeros((len(self.points), len(uniqueIdx)))
         for ptIdx, val in self._data.iterrows():
-            ftIdx = uniqueIdx[val[0]]
+            ftIdx = uniqueIdx[missingAsNan(val[0])]
             toFill[ptIdx, ftIdx] = 1
         return DataFrame(pd.DataFrame(toFill))
 
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 4dc7950..b2ca049 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -38,6 +38,7 @@ from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat, csvNames, mtxNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
+from ._dataHelpers import missingAsNan
 
 @inheritDocstringsFactory(Base)
 class List(Base):
@@ -513,7 +514,7 @@ class List(Base):
     def _replaceFeatureWithBinaryFeatures_implementation(self, uniqueIdx):
         toFill = np.zeros((len(self.points), len(uniqueIdx)))
         for ptIdx, val in enumerate(self._data):
-            ftIdx = uniqueIdx[val[0]]
+            ftIdx = uniqueIdx[missingAsNan(val[0])]
             toFill[ptIdx, ftIdx] = 1
         return List(toFill.tolist())
 
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 0c866de..dbdd88d 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -40,6 +40,7 @@ from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat, csvNames, mtxNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
+from ._dataHelpers import missingAsNan
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
 from ._dataHelpers import isValid2DObject
 
@@ -385,7 +386,7 @@ class Matrix(Base):
     def _replaceFeatureWithBinaryFeatures_implementation(self, uniqueIdx):
         toFill = np.zeros((len(self.points), len(uniqueIdx)))
         for ptIdx, val in enumerate(self._data):
-            ftIdx = uniqueIdx[val.item()]
+            ftIdx = uniqueIdx[missingAsNan(val.item())]
             toFill[ptIdx, ftIdx] = 1
         return Matrix(toFill)
 
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 5760465..b67d80b 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -47,6 +47,7 @@ from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
 from ._dataHelpers import constructIndicesList
 from ._dataHelpers import isValid2DObject
 from ._dataHelpers import validateAxis
+from ._dataHelpers import missingAsNan
 
 @inheritDocstringsFactory(Base)
 class Sparse(Base):
@@ -634,7 +635,7 @@ class Sparse(Base):
         binaryData = []
         values = self.copy('numpyarray').flatten()
         for ptIdx, val in enumerate(values):
-            ftIdx = uniqueIdx[val]
+            ftIdx = uniqueIdx[missingAsNan(val)]
             binaryRow.append(ptIdx)
             binaryCol.append(ftIdx)
             binaryData.append(1)
-- 
2.43.0


From 27e4a5566496bf72435643ee212506a1f8027eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 101/220] fix: combineByExpandingFeatures of several unnamed
 value features

---
 nimble/core/data/points.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index 09069f9..8743753 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -2183,6 +2183,11 @@ class Points(ABC):
             for i in adjust:
                 prefixes[i] += '(' + type(uniqueNames[i]).__name__ + ')'
 
+        suffixes = []
+        for ft, idx in zip(featuresWithValues, valuesIdx):
+            name = self._base.features.getName(idx)
+            suffixes.append(str(ft) if name is None else name)
+
         self._combineByExpandingFeatures_implementation(
             unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures)
         # value features that preceded the names feature are now removed
@@ -2196,12 +2201,7 @@ class Points(ABC):
             # from the featureNames feature, otherwise we will concatenate
             # the feature name with the values feature name.
             if numExpanded > 1:
-                for suffix in featuresWithValues:
-                    if not isinstance(suffix, str):
-                        if self._base.features._namesCreated():
-                            suffix = self._base.features.getName(suffix)
-                        else:
-                            suffix = str(suffix)
+                for suffix in suffixes:
                     concat = prefix + '_' + suffix
                     newFtNames.append(concat)
             else:
-- 
2.43.0


From 78091a3834bb387e7de1c144b4b9bc7293cbd4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 102/220] fix: splitByParsing removes the whole separator given
 in a list of rules

---
 nimble/core/data/features.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 4b87526..cd97072 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2164,10 +2164,10 @@ class Features(ABC):
                         split.append(value[startIdx:].split(item)[0])
                         # find index of value from startIdx on, o.w. will only
                         # ever return first instance. Add len of previous
-                        # values to get actual index and add one to bypass this
-                        # item in next iteration
+                        # values to get actual index and add the length of
+                        # this item to bypass it in next iteration
                         startIdx = (value[startIdx:].index(item) +
-                                    len(value[:startIdx]) + 1)
+                                    len(value[:startIdx]) + len(item))
                     elif isinstance(item, (int, np.integer)):
                         split.append(value[startIdx:item])
                         startIdx = item
-- 
2.43.0


From 005843b7ec93e1d9c8d241f8368603d3d0549d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:48 +0000
Subject: [PATCH 103/220] fix: Tuning with iterative selection can be copied

---
 nimble/core/tune.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index abd34be..5fad398 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1807,9 +1807,12 @@ class Tuning:
         """
         A new Tuner with attributes based on the latest tuning.
         """
+        # allowIncremental is determined by the selection and validation
+        validatorArgs = {name: arg for name, arg in self._validatorArgs.items()
+                         if name != 'allowIncremental'}
         ret = Tuning(selection=self.selection, validation=self.validation,
                      performanceFunction=self.performanceFunction,
-                     **self._selectorArgs, **self._validatorArgs)
+                     **self._selectorArgs, **validatorArgs)
         ret.validator = self.validator
         ret.arguments = self.arguments
         ret._sortedResults = self._sortedResults
-- 
2.43.0


From a9976b079c754586aca8fb816b0a31d30e38cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 104/220] fix: the randomSeed of a tuned training controls
 folds, holdouts and selection

---
 nimble/core/tune.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 5fad398..470e5cb 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -31,6 +31,7 @@ from operator import itemgetter
 import numbers
 import copy
 import sys
+from contextlib import nullcontext
 from timeit import default_timer
 from functools import wraps
 
@@ -1736,12 +1737,20 @@ class Tuning:
             raise InvalidArgumentValue(msg)
         if self.performanceFunction is None:
             self.performanceFunction = performanceFunction
-        self.validator = self._validator(
-            learnerName, trainX, trainY, self.performanceFunction,
-            randomSeed=randomSeed, useLog=useLog, **self._validatorArgs)
-        selector = self._selector(arguments, self.validator,
-                                  **self._selectorArgs)
-        selector.validateAll()
+        # a seed provided for the operation also controls the randomness of
+        # the selection and validation
+        if randomSeed is None:
+            control = nullcontext()
+        else:
+            control = nimble.random.alternateControl(
+                nimble.random._getValidSeed(randomSeed), useLog=False)
+        with control:
+            self.validator = self._validator(
+                learnerName, trainX, trainY, self.performanceFunction,
+                randomSeed=randomSeed, useLog=useLog, **self._validatorArgs)
+            selector = self._selector(arguments, self.validator,
+                                      **self._selectorArgs)
+            selector.validateAll()
 
         # reverse based on optimal for performanceFunction
         highestIsBest = self.validator.optimal == 'max'
-- 
2.43.0


From 59c6e613a4b3e5c70970a68bc4981ef48b3c5470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 105/220] fix: incrementalTrain without randomSeed is
 controlled by the random seed of nimble

---
 nimble/core/interfaces/universal_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index a7b90e6..d5b4613 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1511,6 +1511,7 @@ class TrainedLearner(object):
             global option.
         """
         validateLearningArguments(trainX, trainY)
+        randomSeed = self._interface._getValidSeed(randomSeed)
         if arguments is not None:
             self.arguments.update(arguments)
         transformed = self._interface._inputTransformation(
-- 
2.43.0


From 7c8ebdec84bf263da53a6f56aee11a4709e52ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 106/220] fix: verifying multiclass scores leaves the random
 state unchanged

---
 nimble/core/interfaces/_interface_helpers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nimble/core/interfaces/_interface_helpers.py b/nimble/core/interfaces/_interface_helpers.py
index 91ea0e7..92f57d4 100644
--- a/nimble/core/interfaces/_interface_helpers.py
+++ b/nimble/core/interfaces/_interface_helpers.py
@@ -164,8 +164,10 @@ def checkClassificationStrategy(interface, learnerName, trainArgs, scoreArgs,
     # labels as 0, 1, 2 ,3, 0, 1, 2, 3, ... so testing object is guaranteed to
     # have one of each label
     numPointsPerCluster = max(1, numPts // 4) * 2
-    dataX, _, dataY = generateClusteredPoints(4, numPointsPerCluster,
-                                              numFts, addLabelNoise=False)
+    # the state of the generator is not changed by this trial
+    with nimble.random.alternateControl(seed, useLog=False):
+        dataX, _, dataY = generateClusteredPoints(4, numPointsPerCluster,
+                                                  numFts, addLabelNoise=False)
     reorder = []
     for i in range(numPointsPerCluster):
         for j in range(4):
@@ -227,7 +229,9 @@ def ovaNotOvOFormatted(scoresPerPoint, predictedLabels, numLabels,
     check = 20
     if length < check:
         check = length
-    checkList = pythonRandom.sample(range(length), check)
+    # the state of the generator is not changed by a verification
+    with nimble.random.alternateControl(0, useLog=False):
+        checkList = pythonRandom.sample(range(length), check)
     results = []
     for i in checkList:
         strategy = verifyOvANotOvOSingleList(scoresPerPoint.pointView(i),
-- 
2.43.0


From 7b570988cf5888b673fa13f30ad52ef256744c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 107/220] fix: a seed refused by setSeed leaves the random
 state unchanged

---
 nimble/random/randomness.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nimble/random/randomness.py b/nimble/random/randomness.py
index 5fb3184..4b01de6 100644
--- a/nimble/random/randomness.py
+++ b/nimble/random/randomness.py
@@ -51,8 +51,14 @@ def setSeed(seed, *, useLog=None):
         msg += 'state of randomness'
         raise RuntimeError(msg)
 
-    pythonRandom.seed(seed)
-    numpyRandom.seed(seed)
+    # the state remains unchanged if either source does not accept the seed
+    pythonState = pythonRandom.getstate()
+    try:
+        pythonRandom.seed(seed)
+        numpyRandom.seed(seed)
+    except Exception:
+        pythonRandom.setstate(pythonState)
+        raise
 
     handleLogging(useLog, 'setSeed', 'random.setSeed', seed=seed)
 
-- 
2.43.0


From 280e6dc1f9d96727cd59f9c93efa6f5cdf86d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 108/220] fix: trainAndTestSets separates the labels when no
 point is used for testing

---
 nimble/core/data/base.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 76555a8..f14377c 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1700,13 +1700,8 @@ class Base(ABC):
                     msg += "more than two dimensions"
                     raise ImproperObjectAction(msg)
 
-                # safety for empty objects
-                toExtract = labels
-                if testXSize == 0:
-                    toExtract = []
-
-                trainY = trainX.features.extract(toExtract, useLog=False)
-                testY = testX.features.extract(toExtract, useLog=False)
+                trainY = trainX.features.extract(labels, useLog=False)
+                testY = testX.features.extract(labels, useLog=False)
 
             if self.name is not None:
                 trainX.name = self.name + "_trainX"
-- 
2.43.0


From 4a29cce7d90b2b572e4c2136403cec881f655b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 109/220] fix: trainAndTestSets accepts labels and data with
 some default feature names

---
 nimble/core/data/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index f14377c..73308a5 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1690,7 +1690,8 @@ class Base(ABC):
                     labelNames = labels.features.getNames()
                     # filter names for ones that overlap with self
                     namesInBoth = [name for name in labelNames
-                                   if self.features.hasName(name)]
+                                   if name is not None
+                                   and self.features.hasName(name)]
                     if namesInBoth:
                         trainX.features.delete(namesInBoth, useLog=False)
                         testX.features.delete(namesInBoth, useLog=False)
-- 
2.43.0


From 3fc4b767badaabd536882b23a639e4802b202eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 110/220] fix: validation accepts numpy integers as identifiers
 like training does

---
 nimble/core/tune.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 470e5cb..6973c87 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -209,7 +209,7 @@ class Validator(ABC):
 
         self.learnerName = learnerName
 
-        if isinstance(Y, (int, str, list)):
+        if isinstance(Y, (int, str, list, np.integer)):
             X = X.copy()
             Y = X.features.extract(Y, useLog=False)
 
@@ -460,12 +460,12 @@ class LeaveOneGroupOut(CrossValidator):
             msg += "group out validation"
             raise InvalidArgumentValue(msg)
         self.foldFeature = foldFeature
-        if isinstance(foldFeature, (str, int, list)):
+        if isinstance(foldFeature, (str, int, list, np.integer)):
             if foldFeature == Y:
                 msg = "foldFeature and Y cannot be the same feature"
                 raise InvalidArgumentValueCombination(msg)
             foldFeature = X.features[foldFeature]
-            if isinstance(Y, (str, int, list)):
+            if isinstance(Y, (str, int, list, np.integer)):
                 X = X.copy()
                 Y = X.features.extract(Y, useLog=False)
         elif len(foldFeature.points) != len(X.points):
@@ -491,11 +491,11 @@ class HoldoutValidator(Validator):
             msg = "validateX cannot be None"
             raise InvalidArgumentValue(msg)
         if validateY is None: # use Y value if an identifier
-            if not isinstance(Y, (int, str, list)):
+            if not isinstance(Y, (int, str, list, np.integer)):
                 msg = "No data provided for validateY"
                 raise InvalidArgumentValue(msg)
             validateY = Y
-        if isinstance(validateY, (int, str, list)):
+        if isinstance(validateY, (int, str, list, np.integer)):
             validateX = validateX.copy()
             validateY = validateX.features.extract(validateY, useLog=False)
 
@@ -678,7 +678,7 @@ class HoldoutProportion(HoldoutValidator):
                                        replace=False)
         X = X.copy()
         validateX = X.points.extract(selection, useLog=False)
-        if isinstance(Y, (int, str, list)):
+        if isinstance(Y, (int, str, list, np.integer)):
             validateY = Y
         else:
             Y = Y.copy()
-- 
2.43.0


From a54e157ef3e661e14ec1c8d3bce00fbcc4ec1e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 111/220] fix: tuning does not set the name of the validation
 objects it is given

---
 nimble/core/tune.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 6973c87..958e20c 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -504,17 +504,25 @@ class HoldoutValidator(Validator):
             msg += "points"
             raise InvalidArgumentValueCombination(msg)
 
-        if validateX.name is None:
-            validateX.name = "validateX"
-        if validateY.name is None:
-            validateY.name = "validateY"
-
-        self.validateX = validateX
-        self.validateY = validateY
+        self.validateX = self._named(validateX, "validateX", logInfo)
+        self.validateY = self._named(validateY, "validateY", logInfo)
 
         super().__init__(learnerName, X, Y, performanceFunction, randomSeed,
                          useLog, **logInfo)
 
+    @staticmethod
+    def _named(data, name, logInfo):
+        """
+        Provide unnamed data with a name, without modifying the object.
+        """
+        if data.name is not None:
+            return data
+        named = data.copy()
+        named.name = name
+        if logInfo.get(name) is data:
+            logInfo[name] = named
+        return named
+
     def _validate(self, arguments):
         startTime = time.process_time()
         performance = nimble.trainAndTest(
-- 
2.43.0


From 52b7ce81b2ecbe88d0b701e5c50de83aae555a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 112/220] fix: retrain keeps earlier arguments, takes the new
 label name and changes nothing when refused

---
 nimble/core/interfaces/universal_interface.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index d5b4613..5e42b8f 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1441,20 +1441,20 @@ class TrainedLearner(object):
             has2dOutput = len(outputData.features) > 1
         elif isinstance(outputData, (list, tuple)):
             has2dOutput = len(outputData) > 1
-        self._randomSeed = self._interface._getValidSeed(randomSeed)
+        randomSeed = self._interface._getValidSeed(randomSeed)
 
+        # the arguments not given again keep their value
         merged = mergeArguments(arguments, kwarguments)
+        merged = {**(self._arguments or {}), **merged}
         self._interface._validateLearnerArgumentValues(self.learnerName,
                                                        merged)
-        for arg, value in merged.items():
+        for value in merged.values():
             if isinstance(value, nimble.Tune):
                 msg = "Cannot provide a hyperparameter tuning arguments "
                 msg += "for parameters to retrain a TrainedLearner. "
                 msg += "If wanting to perform hyperparameter tuning, use "
                 msg += "nimble.train()"
                 raise InvalidArgumentValue(msg)
-            self._arguments[arg] = value
-            self._transformedArguments[arg] = value
 
         # separate training data / labels if needed
         if isinstance(trainY, (str, int, np.integer)):
@@ -1462,15 +1462,18 @@ class TrainedLearner(object):
             trainY = trainX.features.extract(toExtract=trainY, useLog=False)
 
         trainedBackend = self._interface._trainBackend(
-            self.learnerName, trainX, trainY, self._transformedArguments,
-            self.randomSeed)
+            self.learnerName, trainX, trainY, merged, randomSeed)
 
         newBackend = trainedBackend[0]
         transformedInputs = trainedBackend[1]
         customDict = trainedBackend[2]
 
         self._backend = newBackend
+        self._randomSeed = randomSeed
         self._trainXShape = trainX.shape
+        self._trainYNames = None
+        if trainY is not None:
+            self._trainYNames = trainY.features._getNamesNoGeneration()
         self._arguments = merged
         self._transformedArguments = transformedInputs[3]
         self._customDict = customDict
-- 
2.43.0


From e46d091cebeb560050cb90592c84ecaa927dfe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 113/220] fix: incrementalTrain accepts label identifiers and
 learners trained with arguments

---
 nimble/core/interfaces/custom_learner.py      |  4 ++++
 nimble/core/interfaces/universal_interface.py | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index f4147a1..646c4c4 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -176,6 +176,10 @@ class CustomLearnerInterface(UniversalInterface):
 
         return learner
 
+    def _incrementalArguments(self, learner, arguments):
+        accepted = inspectArguments(learner.incrementalTrain)[0]
+        return {k: v for k, v in (arguments or {}).items() if k in accepted}
+
     def _applier(self, learnerName, learner, testX, newArguments,
                  storedArguments, customDict):
         backendArgs = learner.getApplyParameters()[1:] # ignore testX param
diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 5e42b8f..5c3af6e 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -526,6 +526,12 @@ class UniversalInterface(metaclass=abc.ABCMeta):
 
         return applyArgs
 
+    def _incrementalArguments(self, learner, arguments):
+        """
+        The stored arguments which apply to incremental training.
+        """
+        return dict(arguments or {})
+
     def learnerType(self, name):
         """
         Returns a string referring to the action the learner.
@@ -1515,11 +1521,18 @@ class TrainedLearner(object):
         """
         validateLearningArguments(trainX, trainY)
         randomSeed = self._interface._getValidSeed(randomSeed)
+        # arguments of the previous training are used where they apply
+        used = self._interface._incrementalArguments(self._backend,
+                                                     self.arguments)
         if arguments is not None:
-            self.arguments.update(arguments)
+            used.update(arguments)
+        # separate training data / labels if needed
+        if isinstance(trainY, (str, int, np.integer)):
+            trainX = trainX.copy()
+            trainY = trainX.features.extract(toExtract=trainY, useLog=False)
         transformed = self._interface._inputTransformation(
             self.learnerName, trainX, trainY, None, self._randomSeed,
-            self.arguments, self._customDict)
+            used, self._customDict)
         transformedTrainX = transformed[0]
         transformedTrainY = transformed[1]
         transformedArguments = transformed[3]
@@ -1527,6 +1540,8 @@ class TrainedLearner(object):
             self.learnerName, self._backend, transformedTrainX,
             transformedTrainY, transformedArguments, randomSeed,
             self._customDict)
+        if arguments is not None:
+            self._arguments = {**(self.arguments or {}), **arguments}
 
         handleLogging(useLog, 'TLrun', self, 'incrementalTrain',
                       self.arguments, trainX, trainY,
-- 
2.43.0


From 2cce4a2141ae356b0e8c5c926243f2feb7b69c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 114/220] fix: learners of scikit-learn are given copies of the
 data

---
 nimble/core/interfaces/scikit_learn_interface.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/nimble/core/interfaces/scikit_learn_interface.py b/nimble/core/interfaces/scikit_learn_interface.py
index f8500f3..14f2122 100644
--- a/nimble/core/interfaces/scikit_learn_interface.py
+++ b/nimble/core/interfaces/scikit_learn_interface.py
@@ -500,14 +500,14 @@ To install scikit-learn
     def _inputTransformation(self, learnerName, trainX, trainY, testX,
                              randomSeed, arguments, customDict):
 
-        mustCopyTrainX = ['PLSRegression']
+        # learners may modify or keep the data they are given, so they are
+        # always given a copy
         if trainX is not None:
             customDict['match'] = trainX.getTypeString()
             if trainX.shape != trainX.dimensions:
                 trainX = trainX.copy(to='numpy array')
-            elif (trainX.getTypeString() == 'Matrix'
-                    and learnerName not in mustCopyTrainX):
-                trainX = trainX._data
+            elif trainX.getTypeString() == 'Matrix':
+                trainX = trainX._data.copy()
             elif trainX.getTypeString() == 'Sparse':
                 trainX = trainX.copy()._data
             else:
@@ -522,12 +522,10 @@ To install scikit-learn
             trainY = dtypeConvert(trainY)
 
         if testX is not None:
-            mustCopyTestX = ['StandardScaler']
             if testX.shape != testX.dimensions:
                 testX = testX.copy(to='numpy array')
-            elif (testX.getTypeString() == 'Matrix'
-                    and learnerName not in mustCopyTestX):
-                testX = testX._data
+            elif testX.getTypeString() == 'Matrix':
+                testX = testX._data.copy()
             elif testX.getTypeString() == 'Sparse':
                 testX = testX.copy()._data
             else:
-- 
2.43.0


From ffbfa9fe054b5ac159fc48452997a12bd3f1d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 115/220] fix: OneVsOne training does not reorder the labels
 and features between pairs

---
 nimble/core/interfaces/universal_interface.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 5c3af6e..68e83b4 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -257,26 +257,21 @@ class UniversalInterface(metaclass=abc.ABCMeta):
                 labelSet = list(set(labelVectorToList))
                 labelPairs = generateAllPairs(labelSet)
 
-                # For each pair of class labels: remove all points with one of
-                # those labels, train a classifier on those points, get
-                # predictions based on that model, and put the points back into
-                # the data object
+                # For each pair of class labels: train a classifier on the
+                # points with one of those labels
                 trainedLearners = []
                 for pair in labelPairs:
                     # get all points that have one of the labels in pair
-                    pairData = trainX.points.extract(
+                    pairData = trainX.points.copy(
                         # pylint: disable=cell-var-from-loop
                         lambda point: point[trainY] in pair, useLog=False)
                     pairTrueLabels = pairData.features.extract(trainY,
                                                                useLog=False)
                     trainedLearners.append(
                         self._train(
-                            learnerName, pairData.copy(),
-                            pairTrueLabels.copy(), arguments, randomSeed,
-                            tuning)
+                            learnerName, pairData, pairTrueLabels, arguments,
+                            randomSeed, tuning)
                         )
-                    pairData.features.append(pairTrueLabels, useLog=False)
-                    trainX.points.append(pairData, useLog=False)
 
                 return TrainedLearners(trainedLearners, 'OneVsOne', labelSet)
 
-- 
2.43.0


From 70ce3098b45c24e4151bb70c94d5b0fd87246d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 116/220] fix: multiClassStrategy is acted upon in every
 accepted spelling

---
 nimble/core/interfaces/universal_interface.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 68e83b4..4a7d483 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -196,6 +196,11 @@ class UniversalInterface(metaclass=abc.ABCMeta):
         self._confirmValidLearner(learnerName)
         randomSeed = self._getValidSeed(randomSeed)
 
+        # the strategy is accepted in any case
+        for strategy in ['default', 'OneVsAll', 'OneVsOne']:
+            if str(multiClassStrategy).lower() == strategy.lower():
+                multiClassStrategy = strategy
+
         if multiClassStrategy != 'default':
             # TODO reevaluate use of checkClassificationStrategy, the if
             # statements below expect a string output but it looks to output
-- 
2.43.0


From 2b8dbe9792a2a4efdace34f08c48ad6da81f8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:55 +0000
Subject: [PATCH 117/220] fix: labels that are text are not turned into numbers
 for training

---
 nimble/_utility.py                               | 10 ++++++++++
 nimble/core/interfaces/custom_learner.py         |  6 +++---
 nimble/core/interfaces/scikit_learn_interface.py |  3 ++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/nimble/_utility.py b/nimble/_utility.py
index bbbad36..cdd1470 100644
--- a/nimble/_utility.py
+++ b/nimble/_utility.py
@@ -322,6 +322,16 @@ def dtypeConvert(obj):
             pass
     return obj
 
+def labelConvert(obj):
+    """
+    Convert an array of labels the way dtypeConvert does, except when a
+    label is text, even if that text could be read as a number.
+    """
+    if (hasattr(obj, 'dtype') and obj.dtype == np.object_
+            and any(isinstance(val, str) for val in obj.flat)):
+        return obj
+    return dtypeConvert(obj)
+
 def isDatetime(x):
     """
     Determine if a value is a datetime object.
diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index 646c4c4..5078645 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -29,7 +29,7 @@ import nimble
 from nimble.exceptions import InvalidArgumentValue, ImproperObjectAction
 from nimble._utility import inheritDocstringsFactory
 from nimble._utility import inspectArguments
-from nimble._utility import dtypeConvert
+from nimble._utility import labelConvert
 from .universal_interface import UniversalInterface
 from .universal_interface import captureOutput
 
@@ -155,7 +155,7 @@ class CustomLearnerInterface(UniversalInterface):
         ret = self.registeredLearners[learnerName]()
 
         if ret.__class__.learnerType == 'classification':
-            labels = dtypeConvert(trainY.copy(to='numpyarray'))
+            labels = labelConvert(trainY.copy(to='numpyarray'))
             ret.labelList = np.unique(labels)
 
         with nimble.random.alternateControl(randomSeed, useLog=False):
@@ -166,7 +166,7 @@ class CustomLearnerInterface(UniversalInterface):
     def _incrementalTrainer(self, learnerName, learner, trainX, trainY,
                             arguments, randomSeed, customDict):
         if learner.__class__.learnerType == 'classification':
-            flattenedY = dtypeConvert(trainY.copy(to='numpyarray').flatten())
+            flattenedY = labelConvert(trainY.copy(to='numpyarray').flatten())
             if learner.labelList is None: # no previous training
                 learner.labelList = []
             learner.labelList = np.union1d(learner.labelList, flattenedY)
diff --git a/nimble/core/interfaces/scikit_learn_interface.py b/nimble/core/interfaces/scikit_learn_interface.py
index 14f2122..1ebe255 100644
--- a/nimble/core/interfaces/scikit_learn_interface.py
+++ b/nimble/core/interfaces/scikit_learn_interface.py
@@ -35,6 +35,7 @@ import nimble
 from nimble.exceptions import InvalidArgumentValue, ImproperObjectAction
 from nimble._utility import inspectArguments
 from nimble._utility import inheritDocstringsFactory, dtypeConvert
+from nimble._utility import labelConvert
 from .universal_interface import PredefinedInterfaceMixin
 from ._interface_helpers import modifyImportPathAndImport
 from ._interface_helpers import collectAttributes
@@ -519,7 +520,7 @@ To install scikit-learn
                 trainY = trainY.copy(to='numpy array')
             else:
                 trainY = trainY.copy(to='numpy array', outputAs1D=True)
-            trainY = dtypeConvert(trainY)
+            trainY = labelConvert(trainY)
 
         if testX is not None:
             if testX.shape != testX.dimensions:
-- 
2.43.0


From 856071812001abf47632c4324c1dea1045f44edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 118/220] fix: KNNClassifier does not depend on later changes
 to the training data

---
 nimble/learners/knn_classification.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/learners/knn_classification.py b/nimble/learners/knn_classification.py
index bb4b428..2fb43f6 100644
--- a/nimble/learners/knn_classification.py
+++ b/nimble/learners/knn_classification.py
@@ -40,8 +40,9 @@ class KNNClassifier(CustomLearner):
 
     def train(self, trainX, trainY, k=5):
         self.k = k
-        self._trainX = trainX
-        self._trainY = trainY
+        # copies, so later changes to the training data have no effect
+        self._trainX = trainX.copy()
+        self._trainY = trainY.copy()
 
     def apply(self, testX):
         dists = self._getDistanceMatrix(testX)
-- 
2.43.0


From 7a422be5f501f8a1d5b632fa0fce2a173ae9e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:08 +0000
Subject: [PATCH 119/220] fix: probabilities of three labels are available
 whatever data the learner accepts

---
 nimble/core/interfaces/scikit_learn_interface.py | 3 +++
 nimble/core/interfaces/universal_interface.py    | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/nimble/core/interfaces/scikit_learn_interface.py b/nimble/core/interfaces/scikit_learn_interface.py
index 1ebe255..222ffa6 100644
--- a/nimble/core/interfaces/scikit_learn_interface.py
+++ b/nimble/core/interfaces/scikit_learn_interface.py
@@ -189,6 +189,9 @@ class _SciKitLearnAPI(PredefinedInterfaceMixin):
         return raw
 
 
+    def _scoresAreProbabilities(self, learner):
+        return not hasattr(learner, 'decision_function')
+
     def _getScoresOrder(self, learner):
         return learner.UIgetScoreOrder
 
diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 4a7d483..26431de 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -526,6 +526,13 @@ class UniversalInterface(metaclass=abc.ABCMeta):
 
         return applyArgs
 
+    def _scoresAreProbabilities(self, learner):
+        """
+        True if the scores of the learner are known to be one probability
+        for each label.
+        """
+        return False
+
     def _incrementalArguments(self, learner, arguments):
         """
         The stored arguments which apply to incremental training.
@@ -1600,6 +1607,8 @@ class TrainedLearner(object):
                 self._customDict)
         if len(rawScores.features) != 3:
             strategy = ovaNotOvOFormatted(rawScores, applyResults, numLabels)
+        elif self._interface._scoresAreProbabilities(self._backend):
+            strategy = True
         else:
             strategy = checkClassificationStrategy(
                 self._interface, self.learnerName, self.arguments, arguments,
-- 
2.43.0


From a9f2a1c94b9dcc59a8ef7db96531017b9b829763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:22 +0000
Subject: [PATCH 120/220] fix: retrain, getScores and keyword arguments act on
 learners trained with a multiclass strategy

---
 nimble/core/interfaces/universal_interface.py | 52 ++++++++++++++-----
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 26431de..0419c92 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1456,18 +1456,7 @@ class TrainedLearner(object):
             has2dOutput = len(outputData) > 1
         randomSeed = self._interface._getValidSeed(randomSeed)
 
-        # the arguments not given again keep their value
-        merged = mergeArguments(arguments, kwarguments)
-        merged = {**(self._arguments or {}), **merged}
-        self._interface._validateLearnerArgumentValues(self.learnerName,
-                                                       merged)
-        for value in merged.values():
-            if isinstance(value, nimble.Tune):
-                msg = "Cannot provide a hyperparameter tuning arguments "
-                msg += "for parameters to retrain a TrainedLearner. "
-                msg += "If wanting to perform hyperparameter tuning, use "
-                msg += "nimble.train()"
-                raise InvalidArgumentValue(msg)
+        merged = self._retrainArguments(arguments, kwarguments)
 
         # separate training data / labels if needed
         if isinstance(trainY, (str, int, np.integer)):
@@ -1496,6 +1485,25 @@ class TrainedLearner(object):
         handleLogging(useLog, 'TLrun', self, 'retrain', self.arguments, trainX,
                       trainY, randomSeed=self.randomSeed)
 
+    def _retrainArguments(self, arguments, kwarguments):
+        """
+        The validated arguments to retrain with, those not given again
+        keep their value.
+        """
+        merged = mergeArguments(arguments, kwarguments)
+        merged = {**(self._arguments or {}), **merged}
+        self._interface._validateLearnerArgumentValues(self.learnerName,
+                                                       merged)
+        for value in merged.values():
+            if isinstance(value, nimble.Tune):
+                msg = "Cannot provide a hyperparameter tuning arguments "
+                msg += "for parameters to retrain a TrainedLearner. "
+                msg += "If wanting to perform hyperparameter tuning, use "
+                msg += "nimble.train()"
+                raise InvalidArgumentValue(msg)
+
+        return merged
+
     @captureOutput
     def incrementalTrain(self, trainX, trainY=None, arguments=None,
                          randomSeed=None, *, useLog=None):
@@ -1828,6 +1836,7 @@ class TrainedLearners(TrainedLearner):
         --------
         TODO
         """
+        arguments = mergeArguments(arguments, kwarguments)
         rawPredictions = None
         #1 VS All
         if self.method == 'OneVsAll':
@@ -1975,6 +1984,25 @@ class TrainedLearners(TrainedLearner):
 
         raise ImproperObjectAction('Wrong multiclassification method.')
 
+    @captureOutput
+    def retrain(self, trainX, trainY=None, arguments=None, randomSeed=None,
+                *, useLog=None, **kwarguments):
+        validateLearningArguments(trainX, trainY, arguments=arguments,
+                                  multiClassStrategy=self.method)
+        merged = self._retrainArguments(arguments, kwarguments)
+        # every one of the trained learners must be replaced
+        trained = self._interface.train(self.learnerName, trainX, trainY,
+                                        merged, self.method, randomSeed)
+        self.__dict__.update(trained.__dict__)
+
+        handleLogging(useLog, 'TLrun', self, 'retrain', self.arguments, trainX,
+                      trainY, randomSeed=self.randomSeed)
+
+    @captureOutput
+    def getScores(self, testX, arguments=None, **kwarguments):
+        return self.apply(testX, arguments, 'allScores', useLog=False,
+                          **kwarguments)
+
 
 ############################
 # PredefinedInterfaceMixin #
-- 
2.43.0


From e6906932a07a3e9ac2fa448c4c4a97155921d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 121/220] fix: Tune refuses or ends for every range and reads
 values with a zero

---
 nimble/core/tune.py | 81 +++++++++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 35 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 958e20c..b2050a5 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1274,8 +1274,10 @@ class StochasticRandomMutator(ArgumentSelector):
                     msg += 'because it is being defined by the learnerArgsFunc'
                     raise InvalidArgumentValueCombination(msg)
                 if isinstance(arg, Tune):
-                    buildArgs[name] = hp.Param(
-                        name, list(arg), ordered=arg._changeType is not None)
+                    # a single value has no adjacent values
+                    ordered = arg._changeType is not None and len(arg) > 1
+                    buildArgs[name] = hp.Param(name, list(arg),
+                                               ordered=ordered)
                     logArgs[name] = buildArgs[name]
                 else:
                     buildArgs[name] = arg
@@ -1394,21 +1396,26 @@ class Tune:
             msg = 'Either values or end must not be None'
             raise InvalidArgumentValueCombination(msg)
         if values is not None and end is not None:
-            msg = "If values is provided, "
+            msg = "If values is provided, end must be None"
+            raise InvalidArgumentValueCombination(msg)
+        provided = values
+        if values is not None:
+            try:
+                # modifications to the object provided have no effect here
+                values = list(values) if len(values) else []
+            except TypeError as e:
+                msg = "values must be iterable."
+                raise InvalidArgumentType(msg) from e
+            if not values:
+                msg = "values must contain at least one value"
+                raise InvalidArgumentValue(msg)
         self._values = values
         self._start = start
         self._end = end
         self._change = change
         self._changeType = changeType
 
-        # prevents needing to autodetect a linear range
-        if isinstance(values, range):
-            self._values = None
-            self._start = values.start
-            self._end = values.stop - 1
-            self._change = values.step
-
-        self._args = {'values': values, 'start': start, 'end': end,
+        self._args = {'values': provided, 'start': start, 'end': end,
                       'change': change, 'changeType': changeType}
 
         if self._values is None:
@@ -1429,17 +1436,22 @@ class Tune:
                 msg = "changeType must be 'add' or 'multiply'"
                 raise InvalidArgumentValue(msg)
 
-            start = self._start
             change = self._change
+            if not linear and (self._start <= 0 or self._end <= 0):
+                msg = "start and end must be greater than 0 when changeType "
+                msg += "is 'multiply'"
+                raise InvalidArgumentValue(msg)
             self._values = []
             if self._start < self._end:
-                if not linear and change < 1:
+                if not linear and change <= 1:
                     msg = "change must be greater than 1"
                     raise InvalidArgumentValue(msg)
                 if linear and change <= 0:
                     msg = "change must be greater than 0"
                     raise InvalidArgumentValue(msg)
                 comp = operator.le
+            elif self._start == self._end:
+                comp = operator.eq
             elif self._start > self._end:
                 if not linear and (self._change >= 1 or self._change <= 0):
                     msg = "change must be between 0 and 1 (exclusive)"
@@ -1450,6 +1462,10 @@ class Tune:
                 comp = operator.ge
 
             curr = self._start
+            if comp is operator.eq:
+                self._values.append(curr)
+                comp = operator.lt
+                curr = self._end
             while comp(curr, self._end):
                 self._values.append(curr)
                 curr = op(curr, self._change)
@@ -1460,32 +1476,27 @@ class Tune:
         else:
             # detect if values is linear or exponential, i.e if values was set
             # to range(2, 10) this would identify the data as linear.
-            try:
-                if (len(values) > 2 and
+            if (len(values) > 2 and
                     all(isinstance(v, numbers.Number) for v in values)):
-                    sort = sorted(values)
-                    difLin = sort[1] - sort[0]
-                    linDiffs = (sort[i + 1] - sort[i] for i
+                sort = sorted(values)
+                difLin = sort[1] - sort[0]
+                linDiffs = (sort[i + 1] - sort[i] for i
+                            in range(len(sort) - 1))
+                if all(d == difLin for d in linDiffs):
+                    self._start = sort[0]
+                    self._end = sort[-1]
+                    self._change = difLin
+                    self._changeType = 'add'
+                elif all(sort):
+                    difExp = sort[1] / sort[0]
+                    expDiffs = (sort[i + 1] / sort[i] for i
                                 in range(len(sort) - 1))
-                    if all(d == difLin for d in linDiffs):
+                    # round to avoid floating point issues
+                    if all(round(d, 12) == difExp for d in expDiffs):
                         self._start = sort[0]
                         self._end = sort[-1]
-                        self._change = difLin
-                        self._changeType = 'add'
-                    elif sort[0]:
-                        difExp = sort[1] / sort[0]
-                        expDiffs = (sort[i + 1] / sort[i] for i
-                                    in range(len(sort) - 1))
-                        # round to avoid floating point issues
-                        if all(round(d, 12) == difExp for d in expDiffs):
-                            self._start = sort[0]
-                            self._end = sort[-1]
-                            self._change = difExp
-                            self._changeType = 'exponential'
-            except TypeError as e:
-                msg = "values must be iterable."
-                raise InvalidArgumentType(msg) from e
-
+                        self._change = difExp
+                        self._changeType = 'exponential'
 
     def __getitem__(self, key):
         return self._values[key]
-- 
2.43.0


From e28e84d081640ff8b308f8e0a7a506df166fba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 122/220] fix: consecutive tuning tries every value of every
 argument in every loop

---
 nimble/core/tune.py | 105 ++++++++++++++++++++------------------------
 1 file changed, 47 insertions(+), 58 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index b2050a5..6aa56d2 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -829,71 +829,60 @@ class Consecutive(ArgumentSelector):
         super().__init__(arguments, validator, **logInfo)
         self.loops = loops
         self.order = order
-        self._currentLoop = 1
-        self._tune = {}
-        self._target = 0
         self._bestPerformance = None
         self._bestArgs = None
-        self._currArgs = None
-        self._tried = set()
+        self._argumentSets = self._generateArgumentSets()
+
+    def _generateArgumentSets(self):
+        """
+        Each argument set to try, given the best set at that time.
+        """
+        current = {}
+        tuned = []
+        for key, val in self.arguments.items():
+            if isinstance(val, Tune):
+                current[key] = 0 # index of the value
+                tuned.append(key)
+        if self.order is None:
+            self.order = tuned
+        for key in tuned:
+            if key not in self.order:
+                msg = f"{key} is not in the order list"
+                raise ImproperObjectAction(msg)
+        for key in self.order:
+            if key not in tuned:
+                msg = f"{key} is in the order list but is not being tuned"
+                raise ImproperObjectAction(msg)
+
+        best = current
+        tried = {tuple(current.values())}
+        yield self._getArguments(current)
+        for _ in range(self.loops):
+            for target in self.order:
+                current = best.copy()
+                for i in range(len(self.arguments[target])):
+                    current[target] = i
+                    # do not repeat a combination
+                    if tuple(current.values()) in tried:
+                        continue
+                    tried.add(tuple(current.values()))
+                    args = self._getArguments(current)
+                    yield args
+                    if self._bestArgs is args:
+                        best = current.copy()
+
+    def _getArguments(self, indexes):
+        return {key: val[indexes[key]] if key in indexes else val
+                for key, val in self.arguments.items()}
 
     def __next__(self):
-        if self._currentLoop > self.loops:
-            raise StopIteration
-        if self._currArgs is None:
-            self._currArgs = {}
-            if self.order is None:
-                createOrder = True
-                self.order = []
-            else:
-                createOrder = False
-            for key, val in self.arguments.items():
-                if isinstance(val, Tune):
-                    self._currArgs[key] = val[0]
-                    self._tune[key] = iter(val[1:])
-                    if createOrder:
-                        self.order.append(key)
-                    elif key not in self.order:
-                        msg = f"{key} is not in the order list"
-                        raise ImproperObjectAction(msg)
-                else:
-                    self._currArgs[key] = val
-        elif not self.order: # no Tune objects
-            raise StopIteration
-        else:
-            target = self.order[self._target]
-            try:
-                self._currArgs[target] = next(self._tune[target])
-            except StopIteration:
-                if self._target + 1 < len(self.order): # next argument
-                    self._currArgs[target] = self._bestArgs[target]
-                    self._target += 1
-                    target = self.order[self._target]
-                    self._currArgs[target] = next(self._tune[target])
-                # new loop
-                elif self._currentLoop + 1 > self.loops:
-                    raise
-                else:
-                    self._currentLoop += 1
-                    self._target = 0
-                    target = self.order[self._target]
-                    self._currArgs = self._bestArgs.copy()
-                    for key in self.order:
-                        iterator = iter(val for val in self.arguments[key]
-                                        if val != self._currArgs[key])
-                        self._tune[key] = iterator
-                    self._currArgs[target] = next(self._tune[target])
-        # go to next if currArgs were already tried in a previous loop
-        if tuple(self._currArgs.items()) in self._tried:
-            return self.__next__()
-        # save combo to avoid future loops from repeating combo
-        self._tried.add(tuple(self._currArgs.items()))
-        performance = self.validator.validate(self._currArgs)
+        args = next(self._argumentSets)
+        performance = self.validator.validate(args)
         if (self._bestPerformance is None
                 or self.validator._isBest(performance, self._bestPerformance)):
             self._bestPerformance = performance
-            self._bestArgs = self._currArgs.copy()
-        return self._currArgs.copy()
+            self._bestArgs = args
+        return args.copy()
 
 
 class Bayesian(ArgumentSelector):
-- 
2.43.0


From 088c1f0e36006877176770b892a58d5de3fa9a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 123/220] fix: iterative tuning moves in the direction of the
 better value

---
 nimble/core/tune.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 6aa56d2..a41668c 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1105,10 +1105,10 @@ class Iterative(ArgumentSelector):
                 highBest = False
             if lowBest and highBest: # select better of the two
                 if self.validator._isBest(perfHigh, perfLow):
-                    best[name] = argLow
+                    best[name] = argHigh
                     self._tuneIdx[name] += 1
                 else:
-                    best[name] = argHigh
+                    best[name] = argLow
                     self._tuneIdx[name] -= 1
             elif lowBest:
                 best[name] = argLow
-- 
2.43.0


From cee6ce6f893e0c0aef3c8fe34cf312e5dc191487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 124/220] fix: bayesian tuning only evaluates the values of the
 Tune objects

---
 nimble/core/tune.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index a41668c..89d72f4 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -938,29 +938,25 @@ class Bayesian(ArgumentSelector):
         self.maxIterations = maxIterations
         self.timeout = timeout
         self.threshold = threshold
+        # the space is the index of each value so that only the values that
+        # were provided, exactly as they were provided, are evaluated
         space = {}
-        self._noTune = True
+        self._tuneVals = {}
         # determine the distribution for each argument
         for name, arg in self.arguments.items():
             if isinstance(arg, Tune):
-                self._noTune = False
-                if arg._changeType == 'add':
-                    if all(v % 1 == 0 for v
-                           in [arg._start, arg._end, arg._change]):
-                        space[name] = hp.uniformint(name, arg._start, arg._end,
-                                                    q=arg._change)
-                    else:
-                        space[name] = hp.quniform(name, arg._start, arg._end,
-                                                  arg._change)
-                elif arg._changeType == 'exponential':
-                    space[name] = hp.qloguniform(name, arg._start, arg._end,
-                                                 arg._change)
+                vals = list(arg)
+                if arg._changeType is not None and len(vals) > 1:
+                    vals = sorted(vals)
+                    space[name] = hp.uniformint(name, 0, len(vals) - 1)
                 else:
-                    space[name] = hp.choice(name, arg._values)
-            else:
-                space[name] = arg
+                    space[name] = hp.choice(name, list(range(len(vals))))
+                self._tuneVals[name] = vals
+        self._noTune = not space
+        if self._noTune: # hyperopt requires a space
+            space[''] = 0
 
-        domain = hyperopt.Domain(self.validator.validate, space)
+        domain = hyperopt.Domain(self._validateIndexes, space)
         self.trials = hyperopt.Trials()
 
         # 0.2.6 and afterwards only allows for BitGenerator rng sources
@@ -977,13 +973,20 @@ class Bayesian(ArgumentSelector):
         self._stopIteration = False
         self._startTime = None
 
+    def _validateIndexes(self, indexes):
+        args = {name: (self._tuneVals[name][int(indexes[name])]
+                       if name in self._tuneVals else arg)
+                for name, arg in self.arguments.items()}
+        return self.validator.validate(args)
+
     def __next__(self):
         # calling next on FMinIter does not properly manage threshold and
         # timing so these are handled internally
         if self._startTime is None:
             self._startTime = default_timer()
         if (self._stopIteration
-                or (self._noTune and self.validator._incremental is False)
+                or (self._noTune and self.validator._incremental is False
+                    and self.validator._results)
                 or (self.timeout is not None
                     and default_timer() - self._startTime > self.timeout)
                 or (self.validator._results and self.threshold is not None
-- 
2.43.0


From ec5b11a4c19e51ae3962c6138e170f4d1126ac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 125/220] fix: validation with holdout data records and returns
 the learner of the arguments being validated

---
 nimble/core/tune.py | 65 +++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 89d72f4..62f02bc 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -584,8 +584,6 @@ class HoldoutData(HoldoutValidator):
         self._trainedLearner = None
         self._trainedLearnerBase = None
         self._incremental = None if allowIncremental else False
-        self._updater = None
-        self._lastArguments = {}
         self.bestTrainedLearner = None
 
     def validate(self, arguments=None, record=True, **kwarguments):
@@ -599,41 +597,44 @@ class HoldoutData(HoldoutValidator):
             self._arguments.append(arguments)
             if self._best is None or self._isBest(performance, self._best[0]):
                 self._best = (performance, arguments)
-                self.bestTrainedLearner = copy.copy(self._trainedLearnerBase)
+                self.bestTrainedLearner = self._copied(self._trainedLearner)
 
         return performance
 
+    def _copied(self, learner):
+        """
+        A learner that is not affected by further incremental training.
+        """
+        if self._incremental is False:
+            return learner # always replaced, never modified
+        ret = copy.copy(learner)
+        try:
+            ret._backend = copy.deepcopy(learner._backend)
+        except Exception: # pylint: disable=broad-except
+            pass # cannot be copied
+        return ret
+
     def _updateTrainedLearner(self, trial):
         if trial:
-            self._trainedLearner = copy.copy(self._trainedLearnerBase)
+            self._trainedLearner = self._copied(self._trainedLearnerBase)
         else:
             self._trainedLearner = self._trainedLearnerBase
 
     def _validate(self, arguments):
-        if self._trainedLearner is None:
-            self._trainedLearnerBase = nimble.train(
-                self.learnerName, self.X, self.Y, arguments, useLog=False)
-            self._trainedLearner = self._trainedLearnerBase
-            self._lastArguments = arguments
-        elif self._updater is None:
-            if self._incremental is None:
-                try:
-                    self._trainedLearner.incrementalTrain(
-                        self.X, self.Y, arguments, useLog=False)
-                    self._updater = self._trainedLearner.incrementalTrain
-                    self._incremental = True
-                except TypeError:
-                    self._incremental = False
-            if not self._incremental:
-                self._updater = self._trainedLearner.retrain
-                # only retrain if arguments have changed
-                if arguments != self._lastArguments:
-                    self._trainedLearner.retrain(self.X, self.Y, arguments,
-                                                 useLog=False)
-            self._lastArguments = arguments
-        elif self._incremental or arguments != self._lastArguments:
-            self._updater(self.X, self.Y, arguments, useLog=False)
-            self._lastArguments = arguments
+        if self._trainedLearner is not None and self._incremental is not False:
+            try:
+                self._trainedLearner.incrementalTrain(
+                    self.X, self.Y, arguments, useLog=False)
+                self._incremental = True
+            except TypeError:
+                if self._incremental:
+                    raise
+                self._incremental = False
+        if not self._incremental:
+            self._trainedLearner = nimble.train(
+                self.learnerName, self.X, self.Y, arguments,
+                randomSeed=self.randomSeed, useLog=False)
+            self._trainedLearnerBase = self._trainedLearner
 
         performance = self._trainedLearner.test(
             self.performanceFunction, self.validateX, self.validateY,
@@ -1124,15 +1125,15 @@ class Iterative(ArgumentSelector):
             # if it is not possible to incrementally train, these
             # results will not improve from here
             raise StopIteration
-        if best:
+        # even if no new parameters were best, incremental training could still
+        # find better future parameters so continue
+        if best or self.validator._incremental:
             self._currArgs.update(best)
-            self.validator._updateTrainedLearner(trial=True)
+            self.validator._updateTrainedLearner(trial=False)
             performance = self.validator.validate(self._currArgs)
             if self.validator._isBest(performance, self._bestPerf):
                 self._bestPerf = performance
                 self._bestArgs = self._currArgs.copy()
-        # even if no new parameters were best, incremental training could still
-        # find better future parameters so continue
         self._currIteration += 1
         return self._currArgs.copy()
 
-- 
2.43.0


From 22fa3fec350f9c58b4de95a440b00b4cd53647ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 126/220] fix: a Tuning object used again validates with the
 performance function of that operation

---
 nimble/core/learn.py |  4 ++--
 nimble/core/tune.py  | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index 09e295d..6bed072 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -1031,8 +1031,8 @@ def _trainAndTestBackend(performanceFunction, learnerName, trainX, trainY,
             tuning = Tuning(performanceFunction=performanceFunction)
         elif not isinstance(tuning, Tuning):
             tuning = Tuning(performanceFunction=tuning)
-        elif tuning.performanceFunction is None:
-            tuning.performanceFunction=performanceFunction
+        else:
+            tuning._setOperationFunction(performanceFunction)
 
     trainedLearner = train(learnerName, trainX, trainY, merged,
                            multiClassStrategy=multiClassStrategy,
diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 62f02bc..0276b1b 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1671,6 +1671,8 @@ class Tuning:
         self.selection = selection
         self.validation = validation
         self.performanceFunction = performanceFunction
+        # whether the function is only that of the latest operation
+        self._operationFunction = False
 
         # Arguments are validated by the objects they are passed to not here
         self._selectorArgs = {}
@@ -1734,6 +1736,14 @@ class Tuning:
         self.arguments = None
         self._sortedResults = None
 
+    def _setOperationFunction(self, performanceFunction):
+        """
+        Use the function of an operation, unless one was provided.
+        """
+        if self.performanceFunction is None or self._operationFunction:
+            self.performanceFunction = performanceFunction
+            self._operationFunction = True
+
     def tune(self, learnerName, trainX, trainY, arguments, performanceFunction,
              randomSeed, useLog):
         """
@@ -1747,8 +1757,8 @@ class Tuning:
         if self.performanceFunction is None and performanceFunction is None:
             msg = "A performanceFunction is required when tuning parameters"
             raise InvalidArgumentValue(msg)
-        if self.performanceFunction is None:
-            self.performanceFunction = performanceFunction
+        if performanceFunction is not None:
+            self._setOperationFunction(performanceFunction)
         # a seed provided for the operation also controls the randomness of
         # the selection and validation
         if randomSeed is None:
-- 
2.43.0


From 3cc7a55ee7e11923877625b9d848a56b48e80909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 127/220] fix: train applies the multiClassStrategy after
 tuning with holdout data

---
 nimble/core/learn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index 6bed072..7694f16 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -828,7 +828,9 @@ def train(learnerName, trainX, trainY=None, arguments=None,
     else:
         bestArguments = arguments
 
-    if tuning is not None and hasattr(tuning.validator, 'bestTrainedLearner'):
+    # the validation does not apply a multiClassStrategy
+    if (tuning is not None and multiClassStrategy is None
+            and hasattr(tuning.validator, 'bestTrainedLearner')):
         trainedLearner = tuning.validator.bestTrainedLearner
         trainedLearner._tuning = tuning
     else:
-- 
2.43.0


From 65c2e5fd4d66d0bcad101e9943e88a4ccb7ffb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:30 +0000
Subject: [PATCH 128/220] fix: Tune includes the end of a range reached with
 rounding errors

---
 nimble/core/tune.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 0276b1b..0c25599 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1463,7 +1463,8 @@ class Tune:
                 self._values.append(curr)
                 curr = op(curr, self._change)
                 # rounding errors can prevent end from being included
-                if linear and round(curr, 12) == self._end:
+                scale = self._change if linear else self._end
+                if abs(curr - self._end) <= 1e-9 * abs(scale):
                     curr = self._end
 
         else:
-- 
2.43.0


From 0469727d9a3cd1240f3f638c96134bd4a26599f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 129/220] fix: the steps a data operation takes internally are
 not logged

---
 nimble/core/_createHelpers.py | 8 ++++----
 nimble/core/data/axis.py      | 6 ++++--
 nimble/core/data/base.py      | 7 ++++---
 nimble/core/data/features.py  | 6 ++++--
 4 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index be540fb..71df0da 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1683,9 +1683,9 @@ def initDataObject(
         cleaned = getKeepIndexValues(ret.points, keepPoints)
         if len(cleaned) == numPts:
             pCmp = makeCmp(cleaned, ret, 'point')
-            ret.points.sort(by=pCmp)
+            ret.points.sort(by=pCmp, useLog=False)
         else:
-            ret = ret.points.copy(cleaned)
+            ret = ret.points.copy(cleaned, useLog=False)
         # if we had a subset of pointNames can set now on the cleaned data
         if setPtNamesAfter:
             ret.points.setNames(pointNames, useLog=False)
@@ -1714,9 +1714,9 @@ def initDataObject(
                 raise InvalidArgumentValue(msg)
         if len(cleaned) == numFts:
             fCmp = makeCmp(cleaned, ret, 'feature')
-            ret.features.sort(by=fCmp)
+            ret.features.sort(by=fCmp, useLog=False)
         else:
-            ret = ret.features.copy(cleaned)
+            ret = ret.features.copy(cleaned, useLog=False)
         # if we had a subset of featureNames can set now on the cleaned data
         if setFtNamesAfter:
             ret.features.setNames(featureNames, useLog=False)
diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index d868b6b..7409fa0 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1188,7 +1188,8 @@ class Axis(ABC):
                 raise ImproperObjectAction(msg)
             # construct list from function
             if limitTo is not None:
-                obj = self._base._getAxis(self._offAxis).copy(limitTo)
+                obj = self._base._getAxis(self._offAxis).copy(
+                    limitTo, useLog=False)
                 toIter = obj._getAxis(self._axis)
             else:
                 toIter = self
@@ -1489,7 +1490,8 @@ class Axis(ABC):
             if not (objAllDefault or toInsertAllDefault) and reorder:
                 # use copy when reordering so toInsert object is not modified
                 toInsert = toInsert.copy()
-                toInsert._getAxis(self._offAxis).permute(offAxisObj.getNames())
+                toInsert._getAxis(self._offAxis).permute(
+                    offAxisObj.getNames(), useLog=False)
 
         return toInsert
 
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 73308a5..41226fd 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3262,7 +3262,7 @@ class Base(ABC):
                 outPath, show, figureID, title, xAxisLabel, yAxisLabel, xMin,
                 xMax, yMin, yMax, **kwargs)
         else:
-            grouped = self.groupByFeature(groupByFeature)
+            grouped = self.groupByFeature(groupByFeature, useLog=False)
             labels = list(grouped.keys())
             lastLabel = labels[-1]
             if 'color' in kwargs:
@@ -3536,8 +3536,9 @@ class Base(ABC):
         if subgroupFeature:
             subgroupFt = self.features[subgroupFeature]
             # remove name in case is same as feature
-            subgroupFt.features.setNames(None, oldIdentifiers=0)
-            toGroup.features.insert(1, subgroupFt)
+            subgroupFt.features.setNames(None, oldIdentifiers=0,
+                                         useLog=False)
+            toGroup.features.insert(1, subgroupFt, useLog=False)
         grouped = toGroup.groupByFeature(0, useLog=False)
 
         axisRange = range(1, len(grouped) + 1)
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index cd97072..0a6f7af 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2452,8 +2452,10 @@ class Features(ABC):
             if 'dataType' not in report.features.getNames():
                 featureDtype = unifyingType(self._base)
                 if featureDtype: 
-                    featureTypes = nimble.data(featureDtype, featureNames=['dataType'])
-                    report.features.append(featureTypes)
+                    featureTypes = nimble.data(featureDtype,
+                                               featureNames=['dataType'],
+                                               useLog=False)
+                    report.features.append(featureTypes, useLog=False)
 
         handleLogging(useLog, 'report', "feature", str(report))
 
-- 
2.43.0


From adc6f748f346dbf26bea382109e2edd1a7e91547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 130/220] fix: the steps a learning operation takes internally
 are not logged

---
 nimble/core/_learnHelpers.py                  | 4 ++--
 nimble/core/interfaces/universal_interface.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nimble/core/_learnHelpers.py b/nimble/core/_learnHelpers.py
index b6e619b..cfbdbd2 100644
--- a/nimble/core/_learnHelpers.py
+++ b/nimble/core/_learnHelpers.py
@@ -478,7 +478,7 @@ class LearnerInspector:
         try:
             runResults = nimble.trainAndApply(
                 learnerName, trainX=regressorTrainData, trainY=trainLabels,
-                testX=regressorTestData)
+                testX=regressorTestData, useLog=False)
         except Exception: # pylint: disable=broad-except
             return 'other'
 
@@ -523,7 +523,7 @@ class LearnerInspector:
         try:
             runResults = nimble.trainAndApply(learnerName, trainX=trainData,
                                               trainY=trainLabels,
-                                              testX=testData)
+                                              testX=testData, useLog=False)
         except Exception: # pylint: disable=broad-except
             return 'other'
 
diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 0419c92..f6ed75e 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -256,7 +256,7 @@ class UniversalInterface(metaclass=abc.ABCMeta):
 
                 # Get set of unique class labels, then generate list of all
                 # 2-combinations of class labels
-                labelVector = trainX.features.copy([trainY])
+                labelVector = trainX.features.copy([trainY], useLog=False)
                 labelVector.transpose(useLog=False)
                 labelVectorToList = labelVector.copy(to="python list")[0]
                 labelSet = list(set(labelVectorToList))
-- 
2.43.0


From 9d2020ae4eb8ce3762a2c3082641258c901f4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 131/220] fix: a call nested in a learning operation does not
 make the next one an entry point

---
 nimble/core/_learnHelpers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nimble/core/_learnHelpers.py b/nimble/core/_learnHelpers.py
index cfbdbd2..fe32fa7 100644
--- a/nimble/core/_learnHelpers.py
+++ b/nimble/core/_learnHelpers.py
@@ -689,14 +689,13 @@ def trackEntry(func):
     """
     @wraps(func)
     def wrapped(*args, **kwargs):
-        if trackEntry.isEntryPoint is None: # entry point
-            trackEntry.isEntryPoint = True
-        elif trackEntry.isEntryPoint: # previous call was entry point
-            trackEntry.isEntryPoint = False
+        previous = trackEntry.isEntryPoint
+        # only the outermost call is the entry point
+        trackEntry.isEntryPoint = previous is None
         try:
             ret = func(*args, **kwargs)
         finally:
-            trackEntry.isEntryPoint = None # reset
+            trackEntry.isEntryPoint = previous # restore
 
         return ret
 
-- 
2.43.0


From 967c3ce0369bfb2c7b6f64a76b5b9f07fe793fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 132/220] fix: applying a learner with a multiClassStrategy is
 logged once, not once per learner

---
 nimble/core/interfaces/universal_interface.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index f6ed75e..db884e4 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1836,13 +1836,26 @@ class TrainedLearners(TrainedLearner):
         --------
         TODO
         """
+        startTime = time.process_time()
         arguments = mergeArguments(arguments, kwarguments)
+        ret = self._applyAll(testX, arguments, scoreMode)
+        totalTime = time.process_time() - startTime
+
+        handleLogging(useLog, 'TLrun', self, "apply", arguments,
+                      testData=testX, time=totalTime, returned=ret)
+
+        return ret
+
+    def _applyAll(self, testX, arguments, scoreMode):
+        """
+        Combine the results of applying every one of the learners.
+        """
         rawPredictions = None
         #1 VS All
         if self.method == 'OneVsAll':
             for trainedLearner in self._trainedLearnersList:
                 oneLabelResults = trainedLearner.apply(testX, arguments,
-                                                       useLog=useLog)
+                                                       useLog=False)
                 label = trainedLearner.label
                 # put all results into one Base container; same type as trainX
                 if rawPredictions is None:
@@ -1926,7 +1939,7 @@ class TrainedLearners(TrainedLearner):
             for trainedLearner in self._trainedLearnersList:
                 # train classifier on that data; apply it to the test set
                 partialResults = trainedLearner.apply(testX, arguments,
-                                                      useLog=useLog)
+                                                      useLog=False)
                 # put predictions into table of predictions
                 if rawPredictions is None:
                     rawPredictions = partialResults.copy(to="List")
-- 
2.43.0


From 0b01f0ae4fd5bcaa394df6f93dc513786d92b972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 133/220] fix: logging accepts any form of argument

---
 nimble/core/logger/session_logger.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 9bfdfe4..b942bf5 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -1207,11 +1207,8 @@ def _buildArgDict(func, logIDs, *args, **kwargs):
     argDict = {}
     for name, arg in nameArgMap.items():
         if name in defaultDict:
-            try:
-                if arg == defaultDict[name]:
-                    continue
-            except TypeError:
-                pass
+            if _isDefault(arg, defaultDict[name]):
+                continue
         if callable(arg):
             string = _extractFunctionString(arg)
         elif isinstance(arg, nimble.core.data.Base):
@@ -1227,6 +1224,19 @@ def _buildArgDict(func, logIDs, *args, **kwargs):
 
     return argDict
 
+def _isDefault(arg, default):
+    """
+    Determine if the argument is the default value. Comparing some objects
+    (i.e arrays) does not provide a single truth value, or fails.
+    """
+    if arg is default:
+        return True
+    try:
+        same = arg == default
+    except Exception: # pylint: disable=broad-except
+        return False
+    return isinstance(same, (bool, np.bool_)) and bool(same)
+
 def _extractFunctionString(function):
     """
     Extracts function name or lambda function if passed a function,
-- 
2.43.0


From 098b7d31e721e78cd70663a5c168063353fff9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 134/220] fix: logging accepts lambda functions whose source
 has changed

---
 nimble/core/logger/session_logger.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index b942bf5..3c94aea 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -1263,7 +1263,10 @@ def _lambdaFunctionString(function):
     """
     try:
         sourceLine = inspect.getsourcelines(function)[0][0]
-        line = re.findall(r'lambda.*', sourceLine)[0]
+        found = re.findall(r'lambda.*', sourceLine)
+        if not found: # the source is not that of the function
+            return "<lambda>"
+        line = found[0]
         lambdaString = ""
         afterColon = False
         # lambda always starts after open parenthesis
-- 
2.43.0


From a8f5cfb855de40580b7e0c0e1ed1637d5e05baad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 135/220] fix: log entries remain readable when learner
 arguments are objects

---
 nimble/core/logger/session_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 3c94aea..6d55d2c 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -503,7 +503,7 @@ class SessionLogger(object):
             if metrics is not None and metrics:
                 logInfo["metrics"] = metrics
             if extraInfo is not None and extraInfo:
-                logInfo["extraInfo"] = extraInfo
+                logInfo["extraInfo"] = literalOnlyArguments(extraInfo)
             if time is not None:
                 logInfo["time"] = time
             logIDs = []
-- 
2.43.0


From 0dfdf88786e861b4081ebacdff5a2315379d94a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 136/220] fix: alternateControl does not log leaving a state it
 could not enter

---
 nimble/random/randomness.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/random/randomness.py b/nimble/random/randomness.py
index 4b01de6..b65ea04 100644
--- a/nimble/random/randomness.py
+++ b/nimble/random/randomness.py
@@ -313,9 +313,14 @@ def alternateControl(seed=None, *, useLog=None):
     pythonState = pythonRandom.getstate()
     numpyState = numpyRandom.get_state()
     savedSettable = setSeed._settable
+    # the state remains unchanged if either source does not accept the seed
     try:
         pythonRandom.seed(seed)
         numpyRandom.seed(seed)
+    except Exception:
+        pythonRandom.setstate(pythonState)
+        raise
+    try:
         setSeed._settable = False
 
         action = 'entered random.alternateControl'
-- 
2.43.0


From c3b83ef14899edf3b44121dc61a3978fed671f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 137/220] fix: showLog accepts datetime objects

---
 nimble/core/logger/session_logger.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 6d55d2c..96e2b92 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -164,9 +164,7 @@ def showLog(levelOfDetail=2, leastSessionsAgo=0, mostSessionsAgo=1,
         raise InvalidArgumentValue(msg)
     if (startDate is not None
             and endDate is not None
-            and startDate > endDate):
-        startDate = stringToDatetime(startDate)
-        endDate = stringToDatetime(endDate)
+            and stringToDatetime(startDate) > stringToDatetime(endDate)):
         msg = "The startDate must be before the endDate"
         raise InvalidArgumentValueCombination(msg)
     if leastSessionsAgo is not None:
@@ -823,8 +821,12 @@ def stringToDatetime(string):
     if any value cannot be converted to an integer. Last, an attempt to
     create the datetime.datetime object is made, if it deems a value to
     be invalid (i.e a date that doesn't exist) this will also raise a
-    ValueError.
+    ValueError. A datetime object is returned as it is.
     """
+    if isinstance(string, datetime.datetime):
+        return string
+    if isinstance(string, datetime.date):
+        return datetime.datetime(string.year, string.month, string.day)
     string = string.strip()
 
     datetimeArgs = []
-- 
2.43.0


From 4a2f988cc32fc31c8458bd476393a9225757e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 138/220] fix: showLog applies the flags of a compiled regular
 expression

---
 nimble/core/logger/session_logger.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 96e2b92..346ad51 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -932,7 +932,7 @@ def _showLogQueryAndValues(leastSessionsAgo, mostSessionsAgo, startDate,
     if searchForText is not None:
         # convert to regex and get pattern
         if regex:
-            searchForText = re.compile(searchForText).pattern
+            searchForText = _regexPattern(re.compile(searchForText))
             whereQueryList.append("(logType REGEXP ? or logInfo REGEXP ?)")
         else:
             searchForText = "%" + searchForText + "%"
@@ -955,6 +955,18 @@ def _showLogQueryAndValues(leastSessionsAgo, mostSessionsAgo, startDate,
 
     return fullQuery, includedValues
 
+def _regexPattern(compiled):
+    """
+    The pattern of a regular expression, including its flags.
+    """
+    pattern = compiled.pattern
+    # flags that are not a part of the pattern already
+    flags = compiled.flags & ~re.compile(pattern).flags
+    letters = {'a': re.ASCII, 'i': re.IGNORECASE, 'm': re.MULTILINE,
+               's': re.DOTALL, 'x': re.VERBOSE}
+    inline = ''.join(name for name, flag in letters.items() if flags & flag)
+    return f'(?{inline})' + pattern if inline else pattern
+
 def _buildLoadLogString(timestamp, entry):
     """
     Constructs the string that will be output for load logTypes.
-- 
2.43.0


From 5cda9b00fd1d66fccb699c483bec453bbee69ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 139/220] fix: the characters % and _ of a text searched by
 showLog are no wildcards

---
 nimble/core/logger/session_logger.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 346ad51..e61f862 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -935,8 +935,12 @@ def _showLogQueryAndValues(leastSessionsAgo, mostSessionsAgo, startDate,
             searchForText = _regexPattern(re.compile(searchForText))
             whereQueryList.append("(logType REGEXP ? or logInfo REGEXP ?)")
         else:
+            # wildcards are only special characters of LIKE
+            for char in '!%_':
+                searchForText = searchForText.replace(char, '!' + char)
             searchForText = "%" + searchForText + "%"
-            whereQueryList.append("(logType LIKE ? or logInfo LIKE ?)")
+            where = "(logType LIKE ? ESCAPE '!' or logInfo LIKE ? ESCAPE '!')"
+            whereQueryList.append(where)
         includedValues.append(searchForText)
         includedValues.append(searchForText)
 
-- 
2.43.0


From f4dd17e959591ae370ab076ed1f302be64b25110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 140/220] fix: showLog finds text with quotes, backslashes and
 line breaks

---
 nimble/core/logger/session_logger.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index e61f862..c0f6f98 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -934,15 +934,19 @@ def _showLogQueryAndValues(leastSessionsAgo, mostSessionsAgo, startDate,
         if regex:
             searchForText = _regexPattern(re.compile(searchForText))
             whereQueryList.append("(logType REGEXP ? or logInfo REGEXP ?)")
+            includedValues.extend([searchForText, searchForText])
         else:
             # wildcards are only special characters of LIKE
             for char in '!%_':
                 searchForText = searchForText.replace(char, '!' + char)
-            searchForText = "%" + searchForText + "%"
-            where = "(logType LIKE ? ESCAPE '!' or logInfo LIKE ? ESCAPE '!')"
-            whereQueryList.append(where)
-        includedValues.append(searchForText)
-        includedValues.append(searchForText)
+            # some characters are escaped in the stored representation
+            stored = repr(searchForText)[1:-1]
+            forms = [searchForText, stored, stored.replace("'", "\\'")]
+            where = " or ".join(["logType LIKE ? ESCAPE '!'"]
+                                + ["logInfo LIKE ? ESCAPE '!'"] * 3)
+            whereQueryList.append(f"({where})")
+            for text in [searchForText] + forms:
+                includedValues.append("%" + text + "%")
 
     if whereQueryList:
         whereQuery = " and ".join(whereQueryList)
-- 
2.43.0


From 21f489776bcd195ce794eab634d92b64bd2cc55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 141/220] fix: splitByParsing refuses names that cannot be used
 before modifying the object

---
 nimble/core/data/axis.py     | 17 +++++++++++++++++
 nimble/core/data/features.py |  9 ++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 7409fa0..6fde312 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -195,6 +195,23 @@ class Axis(ABC):
         return copy.copy(self.namesInverse)
    
 
+    @staticmethod
+    def _validateNewNames(names):
+        """
+        Check that the list of names can be assigned to an axis, so that
+        it can be known before an object is modified.
+        """
+        found = set()
+        for name in names:
+            if name is None:
+                continue
+            if not isinstance(name, str):
+                raise InvalidArgumentValue("Names must be strings")
+            if name in found:
+                msg = "Cannot input duplicate names: " + str(name)
+                raise InvalidArgumentValue(msg)
+            found.add(name)
+
     def _setNames(self, assignments, oldIdentifiers=None):
        # Special case where we remove the entirety of the names, but only if there aren't
         # any specified oldIdentifiers
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 0a6f7af..ac63a77 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2188,12 +2188,15 @@ class Features(ABC):
         featureIndex = self.getIndex(feature)
         numRetFeatures = len(self) - 1 + numResultingFts
 
-        self._splitByParsing_implementation(featureIndex, splitList,
-                                            numRetFeatures, numResultingFts)
-
         fNames = self.getNames()[:featureIndex]
         fNames.extend(resultingNames)
         fNames.extend(self.getNames()[featureIndex + 1:])
+        # validate new feature names before modifying the object
+        self._validateNewNames(fNames)
+
+        self._splitByParsing_implementation(featureIndex, splitList,
+                                            numRetFeatures, numResultingFts)
+
         self._base._dims[1] = numRetFeatures
         self.setNames(fNames, useLog=False)
 
-- 
2.43.0


From d96259262a067a1211685ec0ee25fa9082c6f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 142/220] fix: splitByCollapsingFeatures refuses names that
 cannot be used before modifying the object

---
 nimble/core/data/points.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index 8743753..7a115b9 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -1996,6 +1996,7 @@ class Points(ABC):
                 msg += "it is the name of another feature"
                 raise InvalidArgumentValue(msg)
             ftNames.append(newName)
+        self._base.features._validateNewNames(ftNames)
 
         self._splitByCollapsingFeatures_implementation(
             featuresToCollapse, collapseIndices, retainIndices,
-- 
2.43.0


From d0e90216dbceb3deacaa138afa157cbe6951c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 143/220] fix: combineByExpandingFeatures refuses names that
 cannot be used before modifying the object

---
 nimble/core/data/points.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index 7a115b9..f610523 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -2189,13 +2189,6 @@ class Points(ABC):
             name = self._base.features.getName(idx)
             suffixes.append(str(ft) if name is None else name)
 
-        self._combineByExpandingFeatures_implementation(
-            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures)
-        # value features that preceded the names feature are now removed
-        namesIdx -= sum(idx < namesIdx for idx in valuesIdx)
-
-        self._base._dims = [len(unique), numRetFeatures]
-
         newFtNames = []
         for prefix in prefixes:
             # if only one feature is expanded we will use the unique values
@@ -2207,6 +2200,15 @@ class Points(ABC):
                     newFtNames.append(concat)
             else:
                 newFtNames.append(prefix)
+        keptNames = [self._base.features.getName(i) for i in uncombinedIdx]
+        self._base.features._validateNewNames(keptNames + newFtNames)
+
+        self._combineByExpandingFeatures_implementation(
+            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures)
+        # value features that preceded the names feature are now removed
+        namesIdx -= sum(idx < namesIdx for idx in valuesIdx)
+
+        self._base._dims = [len(unique), numRetFeatures]
 
         if self._base.features._namesCreated():
             origFts = self._base.features.getNames()
-- 
2.43.0


From e1e90fbff9be9fb53ba549f07548b838a9d4eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:02 +0000
Subject: [PATCH 144/220] fix: setting an option back to its saved value calls
 the hook

---
 nimble/core/configuration.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 3ff8888..9ad4d45 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -222,6 +222,7 @@ class SessionConfiguration(object):
                 del self.changes[section][option]
                 if len(self.changes[section]) == 0:
                     del self.changes[section]
+                self._callHook(section, option, value)
                 return
         except configparser.NoSectionError:
             pass
@@ -263,7 +264,12 @@ class SessionConfiguration(object):
             self.changes[section] = {}
         self.changes[section][option] = value
 
-        # call hook if available
+        self._callHook(section, option, value)
+
+    def _callHook(self, section, option, value):
+        """
+        Call the hook of this section/option combination, if available.
+        """
         key = (section, option)
         if key in self.hooks and self.hooks[key] is not None:
             self.hooks[key](value)
-- 
2.43.0


From 7cc1b9fb5f3b160076d52700e56e9ed0f3a201fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:02 +0000
Subject: [PATCH 145/220] fix: getting all settings does not add to the changes

---
 nimble/core/configuration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 9ad4d45..742f3ad 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -154,7 +154,8 @@ class SessionConfiguration(object):
             # section not in changes or config file
             raise configparser.NoSectionError(section)
 
-        ret = self.changes.copy()
+        # the changes may not be affected by adding the saved options
+        ret = {sec: options.copy() for sec, options in self.changes.items()}
         for cpSection in self.parser.sections():
             if cpSection not in ret:
                 ret[cpSection] = {}
-- 
2.43.0


From c76691169c6c6c34dce1b43359abd5b9588cc6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:02 +0000
Subject: [PATCH 146/220] fix: settings may contain the character %

---
 nimble/core/configuration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 742f3ad..954bad5 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -87,7 +87,8 @@ class SessionConfiguration(object):
         changes to that configuration set and gives the user control
         over which changes should be saved and when.
         """
-        self.parser = configparser.ConfigParser()
+        # values are plain text, % is not a special character
+        self.parser = configparser.ConfigParser(interpolation=None)
         # Needs to be set if you want option names to be case sensitive
         self.parser.optionxform = str
         self.parser.read(path)
-- 
2.43.0


From 463a7ad58e638ebb5a087e84512f58a0f9fa758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:02 +0000
Subject: [PATCH 147/220] fix: the configuration file is read with the encoding
 it is written with

---
 nimble/core/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 954bad5..628ce34 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -91,7 +91,7 @@ class SessionConfiguration(object):
         self.parser = configparser.ConfigParser(interpolation=None)
         # Needs to be set if you want option names to be case sensitive
         self.parser.optionxform = str
-        self.parser.read(path)
+        self.parser.read(path, encoding='utf-8')
         self.path = path
 
         # dict of section name to dict of option name to value
-- 
2.43.0


From 9bede1f471af29a72af51f04d88994d3073f3d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:02 +0000
Subject: [PATCH 148/220] fix: saving settings writes the requested changes
 only and is never partial

---
 nimble/core/configuration.py | 118 +++++++++++++++++++++++++----------
 1 file changed, 84 insertions(+), 34 deletions(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 628ce34..387ef0a 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -40,6 +40,8 @@ import inspect
 import configparser
 import pathlib
 import importlib
+import shutil
+import tempfile
 
 import nimble
 from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
@@ -87,17 +89,25 @@ class SessionConfiguration(object):
         changes to that configuration set and gives the user control
         over which changes should be saved and when.
         """
-        # values are plain text, % is not a special character
-        self.parser = configparser.ConfigParser(interpolation=None)
-        # Needs to be set if you want option names to be case sensitive
-        self.parser.optionxform = str
-        self.parser.read(path, encoding='utf-8')
+        self.parser = self._parseFile(path)
         self.path = path
 
         # dict of section name to dict of option name to value
         self.changes = {}
         self.hooks = {}
 
+    @staticmethod
+    def _parseFile(path):
+        """
+        Generate a parser containing the settings in the file.
+        """
+        # values are plain text, % is not a special character
+        parser = configparser.ConfigParser(interpolation=None)
+        # Needs to be set if you want option names to be case sensitive
+        parser.optionxform = str
+        parser.read(path, encoding='utf-8')
+        return parser
+
     def __str__(self):
         """
         String of configuration settings.
@@ -292,41 +302,81 @@ class SessionConfiguration(object):
         if not self.changes:
             return
 
-        def changeIndividual(changeSec, changeOpt, changeVal):
-            if not self.parser.has_section(changeSec):
-                self.parser.add_section(changeSec)
-            self.parser.set(changeSec, changeOpt, changeVal)
-
-
         if section is None:
             if option is not None:
                 msg = "Must specify a section if specifying an option"
                 raise InvalidArgumentValueCombination(msg)
             # save all
-            for sec, options in self.changes.items():
-                for opt in options:
-                    optVal = options[opt]
-                    changeIndividual(sec, opt, optVal)
-
-            self.changes = {}
-        elif option is None and section in self.changes:
-            #save section
-            for opt in self.changes[section]:
-                changeIndividual(section, opt,
-                                 self.changes[section][opt])
-
-            del self.changes[section]
-        elif (option is not None and section in self.changes
-              and option in self.changes[section]):
+            toSave = [(sec, opt) for sec, options in self.changes.items()
+                      for opt in options]
+        elif option is None:
+            # save section
+            toSave = [(section, opt) for opt in self.changes.get(section, {})]
+        else:
             # save specific
-            optVal = self.changes[section][option]
-            changeIndividual(section, option, optVal)
-            del self.changes[section][option]
-            if len(self.changes[section]) == 0:
-                del self.changes[section]
-
-        with open(self.path, 'w', encoding='utf-8') as configFile:
-            self.parser.write(configFile)
+            toSave = [(section, opt) for opt in self.changes.get(section, {})
+                      if opt == option]
+        if not toSave:
+            return
+
+        # only the values to save are changed, the file can also contain
+        # settings that were saved by other sessions
+        saving = self._parseFile(self.path)
+        for sec, opt in toSave:
+            value = self.changes[sec][opt]
+            try:
+                self._changeIndividual(saving, sec, opt, value)
+            except (TypeError, ValueError) as e:
+                msg = f"The value {value!r} of the option {opt!r} in the "
+                msg += f"section {sec!r} cannot be saved: {e}"
+                raise InvalidArgumentValue(msg) from e
+        self._writeFile(saving)
+
+        for sec, opt in toSave:
+            self._changeIndividual(self.parser, sec, opt,
+                                   self.changes[sec][opt])
+            del self.changes[sec][opt]
+            if len(self.changes[sec]) == 0:
+                del self.changes[sec]
+
+    @staticmethod
+    def _changeIndividual(parser, section, option, value):
+        if not parser.has_section(section):
+            parser.add_section(section)
+        parser.set(section, option, value)
+
+    def _writeFile(self, parser):
+        """
+        Replace the content of the configuration file.
+
+        A new file takes the place of the current one once it is
+        complete, so that the file is never found partially written.
+        """
+        path = os.path.realpath(self.path)
+        descriptor, tmpPath = tempfile.mkstemp(
+            prefix=os.path.basename(path), dir=os.path.dirname(path))
+        try:
+            # some text cannot be represented in the file
+            try:
+                with open(descriptor, 'w', encoding='utf-8') as tmpFile:
+                    parser.write(tmpFile)
+                    tmpFile.flush()
+                    os.fsync(tmpFile.fileno())
+                written = self._parseFile(tmpPath)
+            except (configparser.Error, UnicodeError):
+                written = None
+            if written != parser:
+                msg = "The settings contain text which cannot be saved. The "
+                msg += "names of sections and options cannot contain line "
+                msg += "breaks or special characters of the file format and "
+                msg += "values cannot begin or end with whitespace"
+                raise InvalidArgumentValue(msg)
+            if os.path.exists(path):
+                shutil.copymode(path, tmpPath)
+            os.replace(tmpPath, path)
+        except BaseException:
+            os.remove(tmpPath)
+            raise
 
 
 def loadSettings():
-- 
2.43.0


From 93fe28d703ae0f93fa4d955d5677326e760d88d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:02 +0000
Subject: [PATCH 149/220] fix: the logger settings may be set to booleans

---
 nimble/core/logger/session_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index c0f6f98..bfe55c8 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -788,7 +788,7 @@ def loggingEnabled(useLog):
     """
     if useLog is None:
         useLog = nimble.settings.get("logger", "enabledByDefault")
-        useLog = useLog.lower() == 'true'
+        useLog = str(useLog).lower() == 'true'
     return useLog
 
 def deepLoggingEnabled():
@@ -797,7 +797,7 @@ def deepLoggingEnabled():
     """
     deepLog = nimble.settings.get("logger", "enableDeepLogging")
 
-    return deepLog.lower() == 'true'
+    return str(deepLog).lower() == 'true'
 
 def handleLogging(useLog, logType, *args, **kwargs):
     """
-- 
2.43.0


From 49af325bf4085dc95ef2e2de86990bdcba0b1787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 150/220] fix: cosineSimilarity does not depend on the names or
 storage of the values

---
 nimble/calculate/similarity.py | 15 +++++++++------
 nimble/calculate/utility.py    | 10 ++++++++++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/nimble/calculate/similarity.py b/nimble/calculate/similarity.py
index 1327cd9..86b77ee 100644
--- a/nimble/calculate/similarity.py
+++ b/nimble/calculate/similarity.py
@@ -28,7 +28,7 @@ from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
 from nimble.calculate.loss import fractionIncorrect
 from nimble.calculate.loss import varianceFractionRemaining
 from nimble.core.data._dataHelpers import createDataNoValidation
-from .utility import performanceFunction
+from .utility import performanceFunction, divideOrNan
 
 
 @performanceFunction('max', 1)
@@ -36,11 +36,14 @@ def cosineSimilarity(knownValues, predictedValues):
     """
     Calculate the cosine similarity between known and predicted values.
     """
-    numerator = knownValues.T.matrixMultiply(predictedValues)[0, 0]
-    denominator = (sqrt(sum(knownValues ** 2))
-                   * sqrt(sum(predictedValues ** 2)))
-
-    return numerator / denominator
+    # the points are paired by position and booleans are used as 0 and 1
+    known = knownValues.copy('numpy array', outputAs1D=True).astype(float)
+    predicted = predictedValues.copy('numpy array', outputAs1D=True)
+    predicted = predicted.astype(float)
+    numerator = np.dot(known, predicted)
+    denominator = sqrt(sum(known ** 2)) * sqrt(sum(predicted ** 2))
+
+    return divideOrNan(numerator, denominator)
 
 
 def _nanCovCorr(X, X_T=None, sample=True, corr=False):
diff --git a/nimble/calculate/utility.py b/nimble/calculate/utility.py
index 6cba167..8e5030f 100644
--- a/nimble/calculate/utility.py
+++ b/nimble/calculate/utility.py
@@ -349,6 +349,16 @@ class _NoDifferenceResultsException(Exception):
         return repr(self.value)
 
 
+def divideOrNan(numerator, denominator):
+    """
+    Divide two numbers. The result is nan, whichever type of number was
+    provided, when the denominator is zero.
+    """
+    if denominator == 0:
+        return np.nan
+    return numerator / denominator
+
+
 def performanceFunction(optimal, best=None, predict=None, validate=True,
                         requires1D=True, samePtCount=True, sameFtCount=True,
                         allowEmpty=False, allowMissing=False):
-- 
2.43.0


From f8257fd4325a41a604dbba678e62ec76147eec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 151/220] fix: undefined ratios are nan for every type of data

---
 nimble/calculate/binary.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nimble/calculate/binary.py b/nimble/calculate/binary.py
index d9209d1..dad8e5c 100644
--- a/nimble/calculate/binary.py
+++ b/nimble/calculate/binary.py
@@ -21,7 +21,7 @@ Metrics available for binary classification.
 
 from nimble.exceptions import InvalidArgumentValue
 from .similarity import confusionMatrix
-from .utility import performanceFunction
+from .utility import performanceFunction, divideOrNan
 
 @performanceFunction('max')
 def truePositive(knownValues, predictedValues):
@@ -99,7 +99,7 @@ def f1Score(knownValues, predictedValues):
     recall_ = _getRecall(confMtx)
     precision_ = _getPrecision(confMtx)
 
-    return 2 * ((precision_ * recall_) / (precision_ + recall_))
+    return 2 * divideOrNan(precision_ * recall_, precision_ + recall_)
 
 
 ###########
@@ -156,16 +156,16 @@ def _getPredictedNegative(confMtx):
 def _getRecall(confMtx):
     truePos = _getTruePositive(confMtx)
     knownPos = _getKnownPositive(confMtx)
-    return truePos / knownPos
+    return divideOrNan(truePos, knownPos)
 
 def _getPrecision(confMtx):
     truePos = _getTruePositive(confMtx)
     predPos = _getPredictedPositive(confMtx)
 
-    return truePos / predPos
+    return divideOrNan(truePos, predPos)
 
 def _getSpecificity(confMtx):
     trueNeg = _getTrueNegative(confMtx)
     knownNeg = _getKnownNegative(confMtx)
 
-    return trueNeg / knownNeg
+    return divideOrNan(trueNeg, knownNeg)
-- 
2.43.0


From 3ac76ddef82d8f7effbeb2143f6326d55e931c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 152/220] fix: varianceFractionRemaining pairs the points by
 position

---
 nimble/calculate/loss.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nimble/calculate/loss.py b/nimble/calculate/loss.py
index b349626..7fc6fda 100644
--- a/nimble/calculate/loss.py
+++ b/nimble/calculate/loss.py
@@ -24,6 +24,8 @@ level of correctness in the predicted values.
 
 from math import sqrt
 
+import numpy as np
+
 import nimble
 from nimble.exceptions import InvalidArgumentValue
 from nimble.exceptions import InvalidArgumentValueCombination
@@ -128,11 +130,14 @@ def varianceFractionRemaining(knownValues, predictedValues):
     the predicted values. This will be equal to
     1 - nimble.calculate.rSquared() of the same inputs.
     """
-    diffObj = predictedValues - knownValues
-
-    avgSqDiff = diffObj.T.matrixMultiply(diffObj)[0, 0] / float(len(diffObj))
-
-    return avgSqDiff / float(nimble.calculate.variance(knownValues, False))
+    # the points are paired by position
+    known = knownValues.copy('numpy array', outputAs1D=True).astype(float)
+    predicted = predictedValues.copy('numpy array', outputAs1D=True)
+    avgSqDiff = np.mean((predicted.astype(float) - known) ** 2)
+
+    # np.float64 provides nan or infinity when there is no variance
+    return float(avgSqDiff
+                 / np.float64(nimble.calculate.variance(knownValues, False)))
 
 # TODO: Work in progress - performance metrics for clustering
 # NOTES:
-- 
2.43.0


From f265cf1ba0f0a224fc7bfd84fdd3c3716dbe42ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 153/220] fix: error metrics accept booleans in every type of
 data

---
 nimble/calculate/loss.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nimble/calculate/loss.py b/nimble/calculate/loss.py
index 7fc6fda..db0c6a3 100644
--- a/nimble/calculate/loss.py
+++ b/nimble/calculate/loss.py
@@ -71,6 +71,17 @@ def _computeError(knownValues, predictedValues, loopFunction,
     return runningTotal
 
 
+def _difference(left, right):
+    """
+    The difference of two numbers. Booleans stored by numpy do not
+    support subtraction so they are used as 0 and 1, like python bools.
+    """
+    if isinstance(left, np.bool_):
+        left = bool(left)
+    if isinstance(right, np.bool_):
+        right = bool(right)
+    return left - right
+
 @performanceFunction('min', 0)
 def rootMeanSquareError(knownValues, predictedValues):
     """
@@ -79,7 +90,7 @@ def rootMeanSquareError(knownValues, predictedValues):
     data.
     """
     return _computeError(knownValues, predictedValues,
-                         lambda x, y, z: z + (y - x) ** 2,
+                         lambda x, y, z: z + _difference(y, x) ** 2,
                          lambda x, y: sqrt(x / y))
 
 @performanceFunction('min', 0, requires1D=False)
@@ -109,7 +120,7 @@ def meanAbsoluteError(knownValues, predictedValues):
     data.
     """
     return _computeError(knownValues, predictedValues,
-                         lambda x, y, z: z + abs(y - x),
+                         lambda x, y, z: z + abs(_difference(y, x)),
                          lambda x, y: x / y)
 
 @performanceFunction('min', 0)
-- 
2.43.0


From 05aaa8e027ea95fc44bc78413b0aef556995cb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 154/220] fix: confusionMatrix accepts labels containing %

---
 nimble/calculate/similarity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/calculate/similarity.py b/nimble/calculate/similarity.py
index 86b77ee..0c7b245 100644
--- a/nimble/calculate/similarity.py
+++ b/nimble/calculate/similarity.py
@@ -295,7 +295,7 @@ def _mapInt(val):
             _intMapCache[val] = int(val)
             return int(val)
         return val
-    except TypeError:
+    except (TypeError, ValueError): # % is an operator of strings too
         return val
 
 def _validateIndex(idx, numLabels, sourceArg):
-- 
2.43.0


From 8db914ab6ddc5698db53cc8b8308bbdbdab6c851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 155/220] fix: confidence intervals pair the values by position
 and refuse other shapes

---
 nimble/calculate/confidence.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/nimble/calculate/confidence.py b/nimble/calculate/confidence.py
index de1dffb..a102a36 100644
--- a/nimble/calculate/confidence.py
+++ b/nimble/calculate/confidence.py
@@ -21,6 +21,7 @@ Confidence Intervals for error metrics.
 import numpy as np
 
 import nimble
+from nimble.exceptions import InvalidArgumentValueCombination
 from nimble.exceptions import PackageException
 from nimble._utility import scipy
 
@@ -46,6 +47,21 @@ def _confidenceIntervalHelper(mean, standardDeviation, sampleSize,
 
     return low, high
 
+def _validateShapes(known, predicted):
+    if known.shape != predicted.shape:
+        msg = "The known and predicted data must have the same shape"
+        raise InvalidArgumentValueCombination(msg)
+
+def _differences(known, predicted):
+    """
+    The known values minus the predicted values. Values are paired by
+    position so the names of the objects are not relevant.
+    """
+    _validateShapes(known, predicted)
+    diff = (known.copy('numpy array').astype(float)
+            - predicted.copy('numpy array').astype(float))
+    return nimble.data(diff, useLog=False)
+
 def rootMeanSquareErrorConfidenceInterval(known, predicted, confidence=0.95):
     """
     Estimate a confidence interval for the root mean square error.
@@ -54,7 +70,7 @@ def rootMeanSquareErrorConfidenceInterval(known, predicted, confidence=0.95):
     may be inaccurate for smaller samples. A minimum sample size of 100
     is recommended.
     """
-    errors = (known - predicted) ** 2
+    errors = _differences(known, predicted) ** 2
     numSamples = len(errors)
     mean = nimble.calculate.mean(errors)
     standardDeviation = nimble.calculate.standardDeviation(errors)
@@ -71,7 +87,7 @@ def meanAbsoluteErrorConfidenceInterval(known, predicted, confidence=0.95):
     may be inaccurate for smaller samples. A minimum sample size of 100
     is recommended.
     """
-    errors = abs(known - predicted)
+    errors = abs(_differences(known, predicted))
     numSamples = len(errors)
     mean = nimble.calculate.mean(errors)
     standardDeviation = nimble.calculate.standardDeviation(errors)
@@ -88,6 +104,7 @@ def fractionIncorrectConfidenceInterval(known, predicted, confidence=0.95):
     may be inaccurate for smaller samples. A minimum sample size of 100
     is recommended.
     """
+    _validateShapes(known, predicted)
     rawKnown = known.copy(to='numpyarray')
     rawPredicted = predicted.copy(to='numpyarray')
     errors = rawKnown[:] != rawPredicted[:]
-- 
2.43.0


From 28652a9865bbab670725354c1dda7d3c87057423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 156/220] fix: pseudoInverse of an empty object is a new object

---
 nimble/calculate/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/calculate/linalg.py b/nimble/calculate/linalg.py
index 8228be6..18ce461 100644
--- a/nimble/calculate/linalg.py
+++ b/nimble/calculate/linalg.py
@@ -177,7 +177,7 @@ def pseudoInverse(aObj):
         raise InvalidArgumentType(
             "Object must be derived class of nimble.core.data.Base.")
     if not aObj.points and not aObj.features:
-        return aObj
+        return aObj.copy()
 
     def _handleNonSupportedTypes(exception):
         if re.match('.*object arrays*', str(exception), re.I):
-- 
2.43.0


From 7351c5b4f2dc10e310162580bc9886abfa2cc7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 157/220] fix: leastSquaresSolution accepts a single equation
 as Sparse

---
 nimble/calculate/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/calculate/linalg.py b/nimble/calculate/linalg.py
index 18ce461..dacba6d 100644
--- a/nimble/calculate/linalg.py
+++ b/nimble/calculate/linalg.py
@@ -333,7 +333,8 @@ def _backendSolvers(aObj, bObj, solverFunction):
     elif aObj.getTypeString() == 'Sparse':
         aCopy = aObj.copy()
         aData = dtypeConvert(aCopy._data)
-        bData = dtypeConvert(np.asarray(bObj._data))
+        # the solvers for sparse data expect a one dimensional b
+        bData = dtypeConvert(np.asarray(bObj._data)).reshape(-1)
         if solverFunction.__name__ == 'solve':
             solution = scipy.sparse.linalg.spsolve(aData, bData)
         else:
-- 
2.43.0


From ee293973fd857ce301f89694430e9f4b382e986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 158/220] fix: solve refuses a singular Sparse object

---
 nimble/calculate/linalg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/calculate/linalg.py b/nimble/calculate/linalg.py
index dacba6d..6917e06 100644
--- a/nimble/calculate/linalg.py
+++ b/nimble/calculate/linalg.py
@@ -337,6 +337,10 @@ def _backendSolvers(aObj, bObj, solverFunction):
         bData = dtypeConvert(np.asarray(bObj._data)).reshape(-1)
         if solverFunction.__name__ == 'solve':
             solution = scipy.sparse.linalg.spsolve(aData, bData)
+            # scipy does not raise an exception as it does for dense data
+            if not np.isfinite(solution).all():
+                msg = 'A is singular or contains values that are not finite'
+                raise InvalidArgumentValue(msg)
         else:
             solution = scipy.sparse.linalg.lsqr(aData, bData)
             solution = solution[0]
-- 
2.43.0


From ab2c3b849b51f83e3026d10ea7d8faf800ec9b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:58 +0000
Subject: [PATCH 159/220] fix: the output of a custom learner is copied before
 it is modified

---
 nimble/core/interfaces/custom_learner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index 5078645..9e66479 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -146,7 +146,9 @@ class CustomLearnerInterface(UniversalInterface):
                               transformedInputs, outputType, outputFormat,
                               customDict):
         if isinstance(outputValue, nimble.core.data.Base):
-            return outputValue
+            # names will be set, the learner may have returned testX, an
+            # object that it stores, or a View
+            return outputValue.copy()
 
         return nimble.data(outputValue, useLog=False)
 
-- 
2.43.0


From cefd7a20cb12d5aec885c3a2f07915448d388d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:58 +0000
Subject: [PATCH 160/220] fix: arguments for apply of a custom learner can be
 provided when training

---
 nimble/core/interfaces/custom_learner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index 9e66479..3b7ca3e 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -160,8 +160,13 @@ class CustomLearnerInterface(UniversalInterface):
             labels = labelConvert(trainY.copy(to='numpyarray'))
             ret.labelList = np.unique(labels)
 
+        # arguments may include those which are only for apply
+        applyOnly = (set(ret.getApplyParameters())
+                     - set(ret.getTrainParameters()))
+        trainArgs = {k: v for k, v in arguments.items() if k not in applyOnly}
+
         with nimble.random.alternateControl(randomSeed, useLog=False):
-            ret.train(trainX, trainY, **arguments)
+            ret.train(trainX, trainY, **trainArgs)
 
         return ret
 
-- 
2.43.0


From 903fb129d91982b88fd0c07c8605647f93297bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:58 +0000
Subject: [PATCH 161/220] fix: KNNClassifier distances are accurate for close
 points and booleans

---
 nimble/learners/knn_classification.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nimble/learners/knn_classification.py b/nimble/learners/knn_classification.py
index 2fb43f6..882f669 100644
--- a/nimble/learners/knn_classification.py
+++ b/nimble/learners/knn_classification.py
@@ -103,10 +103,13 @@ class KNNClassifier(CustomLearner):
         """
         trainArray = dtypeConvert(self._trainX.copy('numpy array'))
         testArray = dtypeConvert(testX.copy('numpy array'))
-        # euclidean distance for each point in test
-        dists = np.sqrt(-2 * np.dot(testArray, trainArray.T)
-                           + np.sum(trainArray**2, axis=1)
-                           + np.sum(testArray**2, axis=1)[:, np.newaxis])
+        trainArray = trainArray.astype(float)
+        testArray = testArray.astype(float)
+        # euclidean distance for each point in test, expanding the square of
+        # the difference is inaccurate for small distances of large values
+        dists = np.empty((len(testArray), len(trainArray)))
+        for i, point in enumerate(testArray):
+            dists[i] = np.sqrt(np.sum((trainArray - point)**2, axis=1))
         return dists
 
 
-- 
2.43.0


From d4a374c57d970d05e6d7f4a9688826b9e246d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:58 +0000
Subject: [PATCH 162/220] fix: RidgeRegression uses booleans as numbers

---
 nimble/learners/ridge_regression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nimble/learners/ridge_regression.py b/nimble/learners/ridge_regression.py
index 4abf564..cb0ec50 100644
--- a/nimble/learners/ridge_regression.py
+++ b/nimble/learners/ridge_regression.py
@@ -49,9 +49,9 @@ class RidgeRegression(CustomLearner):
         # in other words: Points x Features.
         # for X data, we want both Points x Features and Features x Points
         # for Y data, we only want Points x Features
-        rawXPxF = dtypeConvert(trainX.copy(to="numpyarray"))
+        rawXPxF = dtypeConvert(trainX.copy(to="numpyarray")).astype(float)
         rawXFxP = rawXPxF.transpose()
-        rawYPxF = dtypeConvert(trainY.copy(to="numpyarray"))
+        rawYPxF = dtypeConvert(trainY.copy(to="numpyarray")).astype(float)
 
         featureSpace = np.matmul(rawXFxP, rawXPxF)
         lambdaMatrix = lamb * np.identity(len(trainX.features))
@@ -68,7 +68,7 @@ class RidgeRegression(CustomLearner):
     #		testX.features.append(ones)
 
         # testX input as points in rows, features in columns
-        rawXPxF = dtypeConvert(testX.copy(to="numpyarray"))
+        rawXPxF = dtypeConvert(testX.copy(to="numpyarray")).astype(float)
         rawXFxP = rawXPxF.transpose()
 
         pred = np.dot(self.w.transpose(), rawXFxP)
-- 
2.43.0


From 30dc22cf3c2c25e9c0a394c8e279e8baa6c6dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:58 +0000
Subject: [PATCH 163/220] fix: KNNImputation fills the missing values of the
 object it is applied to

---
 nimble/learners/knn_imputation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nimble/learners/knn_imputation.py b/nimble/learners/knn_imputation.py
index 4e3d740..8d4107b 100644
--- a/nimble/learners/knn_imputation.py
+++ b/nimble/learners/knn_imputation.py
@@ -61,13 +61,17 @@ class KNNImputation(CustomLearner):
                 msg += 'regression mode.'
                 raise InvalidArgumentValue(msg)
 
+        # a copy, so later changes to the training data have no effect
+        self._trainX = trainX.copy()
         match = _convertMatchToFunction(np.nan)
         self.match = trainX.matchingElements(match, useLog=False)
 
     def apply(self, testX):
-        testData = testX.copy()
+        testData = testX.copy(to=self._trainX.getTypeString())
+        testMatch = testData.matchingElements(_convertMatchToFunction(np.nan),
+                                              useLog=False)
         result = []
-        for pt, fill in zip(testData.points, self.match.points):
+        for pt, fill in zip(testData.points, testMatch.points):
             newPt = list(pt)
             if anyTrue(fill):
                 fillIdx = []
@@ -82,7 +86,7 @@ class KNNImputation(CustomLearner):
                     keepIdx.append(ftIdx)
                     cannotTrain = map(anyTrue, self.match[:, keepIdx].points)
                     trainIdx = [i for i, v in enumerate(cannotTrain) if not v]
-                    toTrain = testData[trainIdx, keepIdx]
+                    toTrain = self._trainX[trainIdx, keepIdx]
                     pred = nimble.trainAndApply(
                         self.learner, toTrain, -1, toPredict, useLog=False,
                         **self.kwargs)
-- 
2.43.0


From 62c7fb5588eb5fe574bb1e686c06bcf5fd1e9f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:17 +0000
Subject: [PATCH 164/220] fix: scores of three classes are available for data
 with one feature

---
 nimble/core/interfaces/_interface_helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/_interface_helpers.py b/nimble/core/interfaces/_interface_helpers.py
index 92f57d4..3395498 100644
--- a/nimble/core/interfaces/_interface_helpers.py
+++ b/nimble/core/interfaces/_interface_helpers.py
@@ -166,8 +166,12 @@ def checkClassificationStrategy(interface, learnerName, trainArgs, scoreArgs,
     numPointsPerCluster = max(1, numPts // 4) * 2
     # the state of the generator is not changed by this trial
     with nimble.random.alternateControl(seed, useLog=False):
+        # four clusters are not generated with less than two features
         dataX, _, dataY = generateClusteredPoints(4, numPointsPerCluster,
-                                                  numFts, addLabelNoise=False)
+                                                  max(2, numFts),
+                                                  addLabelNoise=False)
+    if numFts < 2:
+        dataX = dataX.features.copy(0, useLog=False)
     reorder = []
     for i in range(numPointsPerCluster):
         for j in range(4):
-- 
2.43.0


From a5cea04e581dca9c4c4683542279a833dcadee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 165/220] fix: objects without points or features have a
 representation

---
 nimble/core/data/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 41226fd..74bed8e 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2767,11 +2767,12 @@ class Base(ABC):
                 lineLimit -= 1
 
         if columnWidthLimit == 'automatic':
-            if isinstance(lineWidthLimit, int):
+            if lineWidthLimit is not None:
                 # If we just have point indices can know how much space they'll take up
-                if not self.points.names or len(self.points.names) == None:
-                    pNamesEst = math.ceil(math.log(len(self.points), 10))
-                    columnWidthLimit = ((lineWidthLimit-pNamesEst) // len(self.features)) + 7
+                if not self.points.names:
+                    pNamesEst = len(str(len(self.points)))
+                    numFts = max(len(self.features), 1)
+                    columnWidthLimit = ((lineWidthLimit-pNamesEst) // numFts) + 7
                 # For assigned names, we just let it take up another column's worth
                 else:
                     columnWidthLimit = (lineWidthLimit // (len(self.features)+1)) + 7
-- 
2.43.0


From 736f404b14c38b0de65c6100ca7d642a7bf63f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:15 +0000
Subject: [PATCH 166/220] fix: show obeys a given lineWidthLimit and the points
 to show

---
 nimble/core/data/base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 74bed8e..4f6363a 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2749,13 +2749,17 @@ class Base(ABC):
         else:
             terminalSize = shutil.get_terminal_size()
 
-        if features is None and lineWidthLimit == 'automatic':
-            lineWidthLimit = max(79, terminalSize[0] - 1)
-        else:
-            lineWidthLimit = None
+        if lineWidthLimit == 'automatic':
+            if features is None:
+                lineWidthLimit = max(79, terminalSize[0] - 1)
+            else:
+                lineWidthLimit = None
 
         if lineLimit == 'automatic':
-            lineLimit = max(30, terminalSize[1] - 1)
+            if points is None:
+                lineLimit = max(30, terminalSize[1] - 1)
+            else:
+                lineLimit = None
         if lineLimit is not None:
             # subtract lines for data details and last line
             lineLimit -= 2
-- 
2.43.0


From 741691eb692af88ee277e0574aec70970d7ded35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:15 +0000
Subject: [PATCH 167/220] fix: ranges of points and features can be shown
 wherever they are

---
 nimble/core/data/_dataHelpers.py |  4 +++-
 nimble/core/data/base.py         | 20 ++++++++------------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 8068618..e84aa1b 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -170,8 +170,10 @@ def indicesSplit(numAllow, iRange):
     if total > numAllow:
         numAllow -= 1
 
+    if numAllow <= 0 or total == 0:
+        return ([], [])
     if numAllow == 1 or total == 1:
-        return ([0], [])
+        return ([iRange.start], [])
 
     forward = int(math.ceil(numAllow / 2.0))
     backward = int(math.floor(numAllow / 2.0))
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 4f6363a..ba32c9a 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2709,14 +2709,12 @@ class Base(ABC):
         if target.step != 1:
             msg = "range inputs for printing must have a step of 1, not "
             msg += f"{target.step}"
+            raise InvalidArgumentValue(msg)
 
-        desired = (target.start, target.stop)
-        if desired[0] < 0:
-            desired[0] = 0
-        if desired[1] > axisLength:
-            desired[1] = axisLength
+        start = max(target.start, 0)
+        stop = min(target.stop, axisLength)
 
-        return range(desired[0], desired[1])
+        return range(start, max(start, stop))
 
     def _getNotebookTerminalSize(self, _):
         """
@@ -5766,7 +5764,7 @@ class Base(ABC):
         and process them for length. Returns a list of prepared names
         and an int bounding the length of each name representation.
         """
-        if len(self.points) == 0:
+        if len(pRange) == 0:
             return [], 0
 
         names = []
@@ -5798,9 +5796,7 @@ class Base(ABC):
 
         topNames = list(map(getNameString, tRowIDs))
         bottomNames = list(map(getNameString, bRowIDs))
-        maxWidth = max(map(len, topNames))
-        if bottomNames:
-            maxWidth = max(maxWidth, max(map(len, bottomNames)))
+        maxWidth = max(map(len, topNames + bottomNames), default=1)
         pnamesWidth = min(nameLength, maxWidth)
         names = topNames
         if len(topNames) + len(bottomNames) < len(pRange):
@@ -5830,8 +5826,8 @@ class Base(ABC):
         third returned value is a list of feature names matching the columns
         represented in the first return value.
         """
-        if maxHeight < 2 and maxHeight != len(self.points):
-            msg = "If the number of points in this object is two or greater, "
+        if maxHeight < 2 and maxHeight < numPts:
+            msg = "If the number of points to show is two or greater, "
             msg += "then we require that the input argument maxHeight also "
             msg += "be greater than or equal to two."
             raise InvalidArgumentValue(msg)
-- 
2.43.0


From 190958a06572a1454dea8fa46fb624d10cb6938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:15 +0000
Subject: [PATCH 168/220] fix: the number of points or features to show is
 counted from both ends

---
 nimble/core/data/_dataHelpers.py |  7 ++++--
 nimble/core/data/base.py         | 39 +++++++++++++++++++++-----------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index e84aa1b..6ef5fe7 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -158,17 +158,20 @@ def formatIfNeeded(value, sigDigits):
     return str(value)
 
 
-def indicesSplit(numAllow, iRange):
+def indicesSplit(numAllow, iRange, maxIndices=None):
     """
     Given a limit to how many indices we are allowed to display and a range of
     possible indices, return two lists of indices defining a middle ommision.
     In the tupple return, the first list are positive indices
     growing up from zero. The second list are negative indices
-    growing up to negative one.
+    growing up to negative one. The limit includes the place of the
+    indicator of an omission, ``maxIndices`` does not.
     """
     total = len(iRange)
     if total > numAllow:
         numAllow -= 1
+    if maxIndices is not None:
+        numAllow = min(numAllow, maxIndices)
 
     if numAllow <= 0 or total == 0:
         return ([], [])
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index ba32c9a..2b7ecd0 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2596,8 +2596,11 @@ class Base(ABC):
             numPoints = len(points)
             pRange = points
         elif isinstance(points, int):
-            numPoints = min(points, pointsLen)
+            numPoints = pointsLen
             pRange = range(pointsLen)
+            if points < 0:
+                msg = "The number of points to show cannot be negative"
+                raise InvalidArgumentValue(msg)
         elif points is None:
             numPoints = pointsLen
             pRange = range(pointsLen)
@@ -2607,7 +2610,9 @@ class Base(ABC):
         if isinstance(features, range):
             features = self._validateAndTruncatePrintTarget(features, featuresLen)
         elif isinstance(features, int):
-            pass # no action needed
+            if features < 0:
+                msg = "The number of features to show cannot be negative"
+                raise InvalidArgumentValue(msg)
         elif features is None:
             features = len(self.features)
         else:
@@ -2621,6 +2626,8 @@ class Base(ABC):
                 msg = 'The minimum lineLimit for this data is '
                 msg += str(2 + min(numPoints, 2))
                 raise InvalidArgumentValue(msg)
+        # the number of points shown, the line for those left out excluded
+        maxPoints = points if isinstance(points, int) else None
 
         if lineWidthLimit is None:
             lineWidthLimit = float('inf')
@@ -2629,7 +2636,7 @@ class Base(ABC):
         # else table should include data but no pointnames + space for it
         pnames, pnamesWidth = self._arrangePointNames(pRange,
             maxDataRows, columnWidthLimit, rowHold, nameHolder, includePointNames,
-            quoteNames)
+            quoteNames, maxPoints)
         # The available space for the data is reduced by the width of the
         # pnames, a pnames column separator, the pnames separator, and another
         # pnames column separator
@@ -2640,7 +2647,8 @@ class Base(ABC):
             dataTable, colWidths, fnames = self._arrangeDataWithLimits(
                 numPoints, pRange, features,
                 maxDataWidth, maxDataRows, sigDigits, columnWidthLimit, colSep,
-                colHold, rowHold, nameHolder, includeFeatureNames, quoteNames)
+                colHold, rowHold, nameHolder, includeFeatureNames, quoteNames,
+                maxPoints)
         # combine names into finalized table
         finalTable, finalWidths = arrangeFinalTable(
             pnames, pnamesWidth, dataTable, colWidths, fnames, pnameSep)
@@ -5757,7 +5765,7 @@ class Base(ABC):
         self.__init__(**kwargs)
 
     def _arrangePointNames(self, pRange, maxRows, nameLength, rowHolder, nameHold,
-                           includePointNames, quoteNames):
+                           includePointNames, quoteNames, maxPoints=None):
         """
         Prepare point names for string output. Grab only section of
         those names that fit according to the given row limitation,
@@ -5771,7 +5779,7 @@ class Base(ABC):
         pnamesWidth = 0
         nameCutIndex = nameLength - len(nameHold)
 
-        tRowIDs, bRowIDs = indicesSplit(maxRows, pRange)
+        tRowIDs, bRowIDs = indicesSplit(maxRows, pRange, maxPoints)
 
         def getNameString(index):
             if self.points._allDefaultNames() or includePointNames is False:
@@ -5808,7 +5816,8 @@ class Base(ABC):
     def _arrangeDataWithLimits(self, numPts, pRange, features,
                                maxWidth, maxHeight, sigDigits,
                                maxStrLength, colSep, colHold, rowHold,
-                               strHold, includeFeatureNames, quoteNames):
+                               strHold, includeFeatureNames, quoteNames,
+                               maxPoints=None):
         """
         Arrange the data in this object into a table structure, while
         respecting the given boundaries. If there is more data than
@@ -5840,12 +5849,14 @@ class Base(ABC):
         # range or an int
         if isinstance(features, range):
             numFts = len(features)
+            maxFts = numFts
             if numFts != 0:
                 fOffset = features[0]
             else:
                 fOffset = 0
         else:
-            numFts = features
+            numFts = len(self.features)
+            maxFts = min(features, numFts)
             fOffset = 0
 
         #setup a bundle of default values
@@ -5857,11 +5868,8 @@ class Base(ABC):
         maxRows = min(maxHeight, numPts)
         maxDataRows = maxRows
 
-        if numFts == 0:
-            return [[]] * maxDataRows, [], []
-
         if numPts > 0:
-            tRowIDs, bRowIDs = indicesSplit(maxDataRows, pRange)
+            tRowIDs, bRowIDs = indicesSplit(maxDataRows, pRange, maxPoints)
         else:
             tRowIDs, bRowIDs = [], []
         combinedRowIDs = tRowIDs + bRowIDs
@@ -5871,6 +5879,10 @@ class Base(ABC):
         else:
             rowHolderIndex = sys.maxsize
 
+        if numFts == 0:
+            numRows = len(combinedRowIDs) + (rowHolderIndex != sys.maxsize)
+            return [[]] * numRows, [], []
+
         lTable, rTable = [], []
         lColWidths, rColWidths = [], []
         lFNames, rFNames = [], []
@@ -5902,7 +5914,8 @@ class Base(ABC):
         else:
             fnames = self.features.getNames()
 
-        while totalWidth < maxWidth and currIndex != endIndex:
+        while (totalWidth < maxWidth and currIndex != endIndex
+               and numAdded < maxFts):
             currTable = lTable if currIndex >= 0 else rTable
             currCol = []
 
-- 
2.43.0


From 0e8daf28176184db66bf729c0f2a1ba377c87ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:15 +0000
Subject: [PATCH 169/220] fix: a single feature is shown whenever it fits the
 width

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 2b7ecd0..20efa9b 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5888,7 +5888,7 @@ class Base(ABC):
         lFNames, rFNames = [], []
         # total width will always include the column placeholder column,
         # until it is shown that it isn't needed
-        totalWidth = cHoldTotal
+        totalWidth = cHoldTotal if numFts > 1 else 0
 
         # going to add indices from the beginning and end of the data until
         # we've used up our available space, or we've gone through all of
-- 
2.43.0


From d2d99d3c845f99546beea07f53a6f06804a1d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:42 +0000
Subject: [PATCH 170/220] fix: plots save the figure they were drawn on

---
 nimble/core/data/_dataHelpers.py |  7 +++++--
 nimble/core/data/axis.py         |  2 +-
 nimble/core/data/base.py         | 10 +++++-----
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 6ef5fe7..746b178 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1021,7 +1021,7 @@ def plotFigureHandling(figureID):
         figures[figureID] = fig, ax
     return fig, ax
 
-def plotOutput(outPath, show):
+def plotOutput(outPath, show, fig=None):
     """
     Save and/or display a figure, if necessary.
     """
@@ -1031,7 +1031,10 @@ def plotOutput(outPath, show):
             (_, ext) = os.path.splitext(outPath)
             if len(ext) == 0:
                 outFormat = 'png'
-        plt.savefig(outPath, format=outFormat)
+        # the current figure may be a different one
+        if fig is None:
+            fig = plt.gcf()
+        fig.savefig(outPath, format=outFormat)
     if show:
         plt.show()
         # once plt.show() is called, existing figures will no longer display on
diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 6fde312..f311526 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1034,7 +1034,7 @@ class Axis(ABC):
 
         plotAxisLabels(ax, xAxisLabel, xAxisDefault, yAxisLabel, yAxisDefault)
 
-        plotOutput(outPath, show)
+        plotOutput(outPath, show, fig)
 
     #####################
     # Low Level Helpers #
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 20efa9b..9e5ae2c 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3043,7 +3043,7 @@ class Base(ABC):
     @pyplotRequired
     def _plotDistribution(self, axis, identifier, outPath, show, figureID,
                           title, xAxisLabel, yAxisLabel, xMin, xMax, **kwargs):
-        _, ax = plotFigureHandling(figureID)
+        fig, ax = plotFigureHandling(figureID)
         plotUpdateAxisLimits(ax, xMin, xMax, None, None)
 
         axisObj = self._getAxis(axis)
@@ -3096,7 +3096,7 @@ class Base(ABC):
         plotAxisLabels(ax, xAxisLabel, "Values", yAxisLabel,
                        "Number of Values")
 
-        plotOutput(outPath, show)
+        plotOutput(outPath, show, fig)
 
     @limitedTo2D
     def plotFeatureAgainstFeatureRollingAverage(
@@ -3322,7 +3322,7 @@ class Base(ABC):
     def _plotCross(self, x, xAxis, y, yAxis, sampleSizeForAverage, trend,
                    outPath, show, figureID, title, xAxisLabel, yAxisLabel,
                    xMin, xMax, yMin, yMax, **kwargs):
-        _, ax = plotFigureHandling(figureID)
+        fig, ax = plotFigureHandling(figureID)
         plotUpdateAxisLimits(ax, xMin, xMax, yMin, yMax)
 
         xAxisObj = self._getAxis(xAxis)
@@ -3397,7 +3397,7 @@ class Base(ABC):
 
         plotAxisLabels(ax, xAxisLabel, xlabel, yAxisLabel, ylabel)
 
-        plotOutput(outPath, show)
+        plotOutput(outPath, show, fig)
 
     @limitedTo2D
     def plotFeatureGroupMeans(
@@ -3611,7 +3611,7 @@ class Base(ABC):
 
         plotAxisLabels(ax, xAxisLabel, xAxisDefault, yAxisLabel, yAxisDefault)
 
-        plotOutput(outPath, show)
+        plotOutput(outPath, show, fig)
 
 
     ##################################################################
-- 
2.43.0


From 96ac7dd981ea6cfaf9f0ea142424fc50288db35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:42 +0000
Subject: [PATCH 171/220] fix: plots by group draw the given features

---
 nimble/core/data/base.py | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 9e5ae2c..411e609 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3273,7 +3273,30 @@ class Base(ABC):
                 outPath, show, figureID, title, xAxisLabel, yAxisLabel, xMin,
                 xMax, yMin, yMax, **kwargs)
         else:
-            grouped = self.groupByFeature(groupByFeature, useLog=False)
+            # the features of the groups do not have the same indices
+            if not isinstance(groupByFeature, list):
+                groupByFeature = [groupByFeature]
+            numGroupFts = len(groupByFeature)
+            byAndPlotted = [self.features.getIndex(ft) for ft in groupByFeature]
+            byAndPlotted.extend([self.features.getIndex(x),
+                                 self.features.getIndex(y)])
+            names = tuple(self._formattedStringID('feature', idx)
+                          for idx in byAndPlotted[numGroupFts:])
+            toGroup = None
+            for idx in byAndPlotted:
+                # a feature can be used more than once
+                ft = self.features.copy(idx, useLog=False)
+                ft.features.setNames(None, useLog=False)
+                if toGroup is None:
+                    toGroup = ft
+                else:
+                    toGroup.features.append(ft, useLog=False)
+            toGroup.name = self.name
+            if numGroupFts == 1:
+                groupByFeature = 0
+            else:
+                groupByFeature = list(range(numGroupFts))
+            grouped = toGroup.groupByFeature(groupByFeature, useLog=False)
             labels = list(grouped.keys())
             lastLabel = labels[-1]
             if 'color' in kwargs:
@@ -3299,9 +3322,10 @@ class Base(ABC):
                         msg = "color did not contain a key for the label {}"
                         raise KeyError(msg.format(label)) from e
                 grouped[label]._plotCross(
-                    x, 'feature', y, 'feature', sampleSizeForAverage, trend,
+                    0, 'feature', 1, 'feature', sampleSizeForAverage, trend,
                     outPath, showFig, figureID, title, xAxisLabel,
-                    yAxisLabel, xMin, xMax, yMin, yMax, label=label, **kwargs)
+                    yAxisLabel, xMin, xMax, yMin, yMax, names=names,
+                    label=label, **kwargs)
 
 
     def _formattedStringID(self, axis, identifier):
@@ -3321,7 +3345,7 @@ class Base(ABC):
     @pyplotRequired
     def _plotCross(self, x, xAxis, y, yAxis, sampleSizeForAverage, trend,
                    outPath, show, figureID, title, xAxisLabel, yAxisLabel,
-                   xMin, xMax, yMin, yMax, **kwargs):
+                   xMin, xMax, yMin, yMax, names=None, **kwargs):
         fig, ax = plotFigureHandling(figureID)
         plotUpdateAxisLimits(ax, xMin, xMax, yMin, yMax)
 
@@ -3340,8 +3364,11 @@ class Base(ABC):
         xToPlot = customGetter(xIndex, xAxis)
         yToPlot = customGetter(yIndex, yAxis)
 
-        xName = xlabel = self._formattedStringID(xAxis, xIndex)
-        yName = ylabel = self._formattedStringID(yAxis, yIndex)
+        if names is None:
+            names = (self._formattedStringID(xAxis, xIndex),
+                     self._formattedStringID(yAxis, yIndex))
+        xName = xlabel = names[0]
+        yName = ylabel = names[1]
 
         if sampleSizeForAverage is not None:
             #do rolling average
-- 
2.43.0


From b320b8c6ad95d1cfcff069ac7a87b66dc4c1b65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:00 +0000
Subject: [PATCH 172/220] fix: the groups of a plot are drawn on one new figure

---
 nimble/core/data/base.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 411e609..438fa99 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3310,23 +3310,27 @@ class Base(ABC):
             else:
                 colors = None
 
-            if show and not figureID:
+            loopID = None
+            if figureID is None:
                 # need a figure name for plotting loop
-                figureID = 'Nimble Figure'
-            for label in labels:
-                showFig = show and label == lastLabel
-                if colors:
-                    try:
-                        kwargs['color'] = colors[label]
-                    except KeyError as e:
-                        msg = "color did not contain a key for the label {}"
-                        raise KeyError(msg.format(label)) from e
-                grouped[label]._plotCross(
-                    0, 'feature', 1, 'feature', sampleSizeForAverage, trend,
-                    outPath, showFig, figureID, title, xAxisLabel,
-                    yAxisLabel, xMin, xMax, yMin, yMax, names=names,
-                    label=label, **kwargs)
-
+                figureID = loopID = object()
+            try:
+                for label in labels:
+                    showFig = show and label == lastLabel
+                    if colors:
+                        try:
+                            kwargs['color'] = colors[label]
+                        except KeyError as e:
+                            msg = "color did not contain a key for the label "
+                            msg += "{}"
+                            raise KeyError(msg.format(label)) from e
+                    grouped[label]._plotCross(
+                        0, 'feature', 1, 'feature', sampleSizeForAverage,
+                        trend, outPath, showFig, figureID, title, xAxisLabel,
+                        yAxisLabel, xMin, xMax, yMin, yMax, names=names,
+                        label=label, **kwargs)
+            finally:
+                nimble.core.data._plotFigures.pop(loopID, None)
 
     def _formattedStringID(self, axis, identifier):
         if axis == 'point':
-- 
2.43.0


From c912b1df7cfc1e1da5be7a62ddc8bd972742f6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:00 +0000
Subject: [PATCH 173/220] fix: plots accept groups that are not text

---
 nimble/core/data/_dataHelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 746b178..9c64582 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1103,7 +1103,8 @@ def plotXTickLabels(ax, fig, names, numTicks):
     """
     Helper for setting and orienting the labels for x ticks.
     """
-    xtickMax = max(len(name) for name in names)
+    names = list(map(str, names))
+    xtickMax = max(map(len, names))
     # 1 unit of figwidth can contain 9 characters
     tickWidth = int(fig.get_figwidth() / numTicks * 9)
     if xtickMax > tickWidth:
-- 
2.43.0


From 07c195e0364483c6a78eb4595e79b81584f89014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:00 +0000
Subject: [PATCH 174/220] fix: the first feature can define the subgroups of a
 plot

---
 nimble/core/data/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 438fa99..407a78c 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3575,7 +3575,7 @@ class Base(ABC):
             statName = ''
 
         toGroup = self.features[[groupFeature, feature]]
-        if subgroupFeature:
+        if subgroupFeature is not None:
             subgroupFt = self.features[subgroupFeature]
             # remove name in case is same as feature
             subgroupFt.features.setNames(None, oldIdentifiers=0,
@@ -3599,7 +3599,7 @@ class Base(ABC):
             if title is True:
                 title = "95% Confidence Intervals for Mean of " + featureName
 
-        elif subgroupFeature:
+        elif subgroupFeature is not None:
             heights = {}
             for i, (name, group) in enumerate(grouped.items()):
                 names.append(str(name))
-- 
2.43.0


From 5a5ffcc9560eacf05aec1d8f51e8287c78048968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:00 +0000
Subject: [PATCH 175/220] fix: a rolling average of single samples is plotted

---
 nimble/core/data/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 407a78c..26ec7da 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3380,9 +3380,11 @@ class Base(ABC):
                                                 key=lambda x: x[0])))
             convShape = (np.ones(sampleSizeForAverage)
                          / float(sampleSizeForAverage))
-            startIdx = sampleSizeForAverage-1
-            xToPlot = np.convolve(xToPlot, convShape)[startIdx:-startIdx]
-            yToPlot = np.convolve(yToPlot, convShape)[startIdx:-startIdx]
+            # only windows that are completely within the data
+            startIdx = sampleSizeForAverage - 1
+            stopIdx = len(xToPlot)
+            xToPlot = np.convolve(xToPlot, convShape)[startIdx:stopIdx]
+            yToPlot = np.convolve(yToPlot, convShape)[startIdx:stopIdx]
 
             tmpStr = f' ({sampleSizeForAverage} sample average)'
             xlabel += tmpStr
-- 
2.43.0


From 0a975a189714e0d5d57725106d7efc8f64f421a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:00 +0000
Subject: [PATCH 176/220] fix: labels of plotHeatMap can be False

---
 nimble/core/data/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 26ec7da..6f2c5ef 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2960,8 +2960,12 @@ class Base(ABC):
 
         if xAxisLabel is True:
             xAxisLabel = "Feature Values"
+        elif xAxisLabel is False:
+            xAxisLabel = None
         if yAxisLabel is True:
             yAxisLabel = "Point Values"
+        elif yAxisLabel is False:
+            yAxisLabel = None
         plt.xlabel(xAxisLabel, labelpad=10)
         plt.ylabel(yAxisLabel)
 
-- 
2.43.0


From c773b5c43d2682e47af4c3998923025d0f6ee632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:00 +0000
Subject: [PATCH 177/220] fix: the distribution of a boolean feature can be
 plotted

---
 nimble/core/data/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 6f2c5ef..ff7f8a4 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3091,6 +3091,9 @@ class Base(ABC):
                 kwargs['bins'] = binCount
         else:
             toPlot = sorted(list(toPlot))
+            if all(isinstance(val, (bool, np.bool_)) for val in toPlot):
+                # numpy does not provide bins for booleans
+                toPlot = list(map(int, toPlot))
           
         ax.hist(toPlot, **kwargs)
         if 'label' in kwargs:
-- 
2.43.0


From 8bf2990be31e8c3ca867a3623d3bafab9631dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 178/220] fix: groups with a single subgroup can be plotted

---
 nimble/core/data/_dataHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 9c64582..12d5cf8 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1174,7 +1174,7 @@ def plotMultiBarChart(ax, heights, horizontal, legendTitle, **kwargs):
     start = 1 - (width / 2) + (singleWidth / 2)
 
     for i, (name, height) in enumerate(heights.items()):
-        widths = np.arange(start, len(height))
+        widths = start + np.arange(len(height))
         widths += i * singleWidth
         if horizontal:
             ax.barh(widths, height, height=singleWidth, label=name,
-- 
2.43.0


From 9166cc5ae2c3c7ed050669587d3df682ebf0fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:34 +0000
Subject: [PATCH 179/220] fix: the distribution of a feature with missing
 values can be plotted

---
 nimble/core/data/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index ff7f8a4..b9d8e50 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3071,12 +3071,14 @@ class Base(ABC):
         elif title is False:
             title = None
         ax.set_title(title)
-        toPlot = getter(index)
+        # missing values are not part of any bin
+        toPlot = [val for val in getter(index)
+                  if val is not None and val == val]
               
-        valMax = max(toPlot)
+        valMax = max(toPlot, default=None)
         if type(valMax) in [float, int]:
             if 'bins' not in kwargs:
-                quartiles = nimble.calculate.quartiles(toPlot)
+                quartiles = nimble.calculate.quartiles(getter(index))
                 IQR = quartiles[2] - quartiles[0]
                 binWidth = (2 * IQR) / (len(toPlot) ** (1. / 3))
                 # TODO: replace with calculate points after it subsumes
-- 
2.43.0


From d0133f5966db1aec2cf49f7a7468444cac876309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:11 +0000
Subject: [PATCH 180/220] fix: flatten refuses names that combine into
 duplicates before changing the object

---
 nimble/core/data/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index b9d8e50..17d49f6 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4209,6 +4209,10 @@ class Base(ABC):
         fNames = None
         if self.points._namesCreated() or self.features._namesCreated():
             fNames = self._flattenNames(order)
+            if len(set(fNames)) < len(fNames):
+                msg = "The point and feature names of this object would be "
+                msg += "combined into duplicate feature names"
+                raise ImproperObjectAction(msg)
         self._dims = list(self.shape) # make 2D before flattening
         self._flatten_implementation(order)
         self._dims = [1, len(self.points) * len(self.features)]
-- 
2.43.0


From 33ab75df5fd150d1b63a6806ba2730f5fce509c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 181/220] fix: a feature is not lost when the names of its
 binary features are refused

---
 nimble/core/data/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 17d49f6..ee05048 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -571,7 +571,7 @@ class Base(ABC):
 
         index = self.features.getIndex(featureToReplace)
 
-        replace = self.features.extract([index], useLog=False)
+        replace = self.features.copy([index], useLog=False)
 
         # all missing values are the same value
         uniqueVals = list(dict.fromkeys(
@@ -590,7 +590,13 @@ class Base(ABC):
         for val in uniqueVals:
             ftNames.append(prefix + str(val))
         binaryObj.features.setNames(ftNames, useLog=False)
+        for ftName in ftNames:
+            if ftName != name and self.features.hasName(ftName):
+                msg = f"The new feature name {ftName!r} is already the name "
+                msg += "of another feature"
+                raise InvalidArgumentValue(msg)
 
+        self.features.delete([index], useLog=False)
         # must use append if the object is now feature empty
         if len(self.features) == 0:
             self.features.append(binaryObj, useLog=False)
-- 
2.43.0


From 3385cafd7159ff12b4810af0be811f66036b04a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:55 +0000
Subject: [PATCH 182/220] fix: the tuning of a learner object is logged with
 the name of the learner

---
 nimble/core/logger/session_logger.py | 40 +++++++++++++++-------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index bfe55c8..af78e4f 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -449,23 +449,7 @@ class SessionLogger(object):
         if loggingEnabled(useLog):
             logInfo = {}
             logInfo["function"] = nimbleFunction
-            if isinstance(learnerFunction, str):
-                functionCall = learnerFunction
-            else: # learner object was provided directly
-                try:
-                    name = learnerFunction.__name__
-                    module = learnerFunction.__module__.split('.')[0]
-                    package = 'custom'
-                    for interface in nimble.core.interfaces.available.values():
-                        if interface.isAlias(module):
-                            package = interface.getCanonicalName()
-                    functionCall = package + '.' + name
-                # the above should cover all expected cases, but for safety we
-                # will catch any exceptions to prevent a successful operation
-                # from failing here due to a logging issue
-                except Exception: # pylint: disable=broad-except
-                    functionCall = "Unable to determine learner name"
-            logInfo["learner"] = functionCall
+            logInfo["learner"] = _learnerCallName(learnerFunction)
             # integers or strings passed for Y values, convert if necessary
             if isinstance(trainLabels, (str, int, np.int64)):
                 trainData = trainData.copy()
@@ -670,7 +654,7 @@ class SessionLogger(object):
                     logInfo["validationArgs"][name] = _BaseNameOrType(arg)
                 else:
                     logInfo["validationArgs"][name] = arg
-            logInfo["learnerName"] = validator.learnerName
+            logInfo["learnerName"] = _learnerCallName(validator.learnerName)
             performanceFunction = validator.performanceFunction
             logInfo["metric"] = (performanceFunction.optimal,
                                  performanceFunction.__name__)
@@ -866,6 +850,26 @@ def stringToDatetime(string):
         raise InvalidArgumentValue(msg) from e
 
 
+def _learnerCallName(learner):
+    """
+    The name of the learner, which can be a string or the learner object.
+    """
+    if isinstance(learner, str):
+        return learner
+    try:
+        name = learner.__name__
+        module = learner.__module__.split('.')[0]
+        package = 'custom'
+        for interface in nimble.core.interfaces.available.values():
+            if interface.isAlias(module):
+                package = interface.getCanonicalName()
+        return package + '.' + name
+    # the above should cover all expected cases, but for safety we
+    # will catch any exceptions to prevent a successful operation
+    # from failing here due to a logging issue
+    except Exception: # pylint: disable=broad-except
+        return "Unable to determine learner name"
+
 def identifyObject(obj):
     """
     The identifier will be name when available otherwise logID.
-- 
2.43.0


From 530f115ef4a27cfec8fabcc4564f44d584d98dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:11 +0000
Subject: [PATCH 183/220] fix: collapsing or expanding refuses a feature given
 more than once

---
 nimble/core/data/points.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index f610523..3198613 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -1976,6 +1976,9 @@ class Points(ABC):
         numCollapsed = len(featuresToCollapse)
         collapseIndices = [self._base.features.getIndex(ft)
                            for ft in featuresToCollapse]
+        if len(set(collapseIndices)) < numCollapsed:
+            msg = "featuresToCollapse cannot contain a feature more than once"
+            raise InvalidArgumentValue(msg)
         retainIndices = [idx for idx in range(len(features))
                          if idx not in collapseIndices]
         currNumPoints = len(self)
@@ -2137,6 +2140,10 @@ class Points(ABC):
         valuesIdx = [self._base.features.getIndex(idx) for idx
                      in featuresWithValues]
         combinedIdx = [namesIdx] + valuesIdx
+        if len(set(combinedIdx)) < len(combinedIdx):
+            msg = "featureWithFeatureNames and featuresWithValues cannot "
+            msg += "contain a feature more than once"
+            raise InvalidArgumentValue(msg)
         uncombinedIdx = [i for i in range(len(self._base.features))
                          if i not in combinedIdx]
 
-- 
2.43.0


From 9f282b75b9f5688e1e1078a8bfdb1e2ee9c06738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:56 +0000
Subject: [PATCH 184/220] fix: several features without a name can be kept when
 loading a file

---
 nimble/core/_createHelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 71df0da..ed4929d 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2685,7 +2685,8 @@ def _limitToKeptFeatures(keepFeatures, retFNames):
         # index values
         elif 0 <= ftID < len(retFNames):
             name = retFNames[ftID]
-            if name in keepNames:
+            # default names do not identify a feature
+            if name is not None and name in keepNames:
                 _raiseKeepIndexNameConflict('feature', ftID, name)
             keepIndices.append(ftID)
             keepNames.append(name)
-- 
2.43.0


From 2c4a5eb5b8413f6ae29e6f9b3aaf1b0785ca71f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:09 +0000
Subject: [PATCH 185/220] fix: a list of types for all features in a file is
 applied to the kept features

---
 nimble/core/_createHelpers.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index ed4929d..b43d1e4 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2288,6 +2288,12 @@ def createDataFromFile(
                 toLoad, *names, ignoreNonNumericalFeatures, *keep,
                 inputSeparator, emptyIsMissing)
             selectSuccess = True
+            *loaded, ptsKept, ftsKept = loaded
+            if isinstance(convertToType, list):
+                # a type for each feature in the file
+                kept, total = ftsKept if rowsArePoints else ptsKept
+                if kept is not None and len(convertToType) == total:
+                    convertToType = [convertToType[i] for i in kept]
             # empty values in numeric features have been loaded as nan
             if emptyIsMissing:
                 treatAsMissing = [*treatAsMissing, np.nan]
@@ -2899,9 +2905,9 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     tuple
         The data read from the file, pointNames (those extracted from
         the data, or the same value as passed in), featureNames (same
-        sematics as pointNames), and either True or False indicating if
-        the keepPoints and keepFeatures parameters were applied in this
-        function call.
+        sematics as pointNames), and, for each of the points and
+        features, a tuple of the indices that were kept (None if all
+        were kept) and the number available in the file.
     """
     dialect = _detectDialectFromSeparator(ioStream, inputSeparator)
     pointNames, featureNames = _checkCSVForNames(
@@ -2959,12 +2965,14 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     extractedPointNames = []
     nonNumericFeatures = set()
     locatedPoints = []
+    keptPoints = None
     retData = []
     totalPoints = 0
     if limitPoints:
         # we want to insert the points and names in the desired order
         retData = [None] * len(keepPoints)
         extractedPointNames = [None] * len(keepPoints)
+        keptPoints = [None] * len(keepPoints)
 
     convertCols = None
     nonNumericFeatures = set()
@@ -3042,6 +3050,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
                     locate = pointNames[i]
                 location = keepPoints.index(locate)
                 locatedPoints.append(locate)
+                keptPoints[location] = i
                 retData[location] = row
                 if pointNames is True:
                     extractedPointNames[location] = ptName
@@ -3073,6 +3082,9 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
         msg += "found in the data"
         raise InvalidArgumentValue(msg)
 
+    ptsKept = (keptPoints, totalPoints)
+    ftsKept = (keepFeatures if limitFeatures else None, firstRowLength)
+
     # remove last feature if all values are '' (all rows ended with delimiter),
     # '' is missing value, and no feature name is provided
     lastFtRemovable = (not limitFeatures and emptyIsMissing
@@ -3145,7 +3157,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     else:
         retPNames = pointNames
 
-    return constructor(retData), retPNames, retFNames
+    return constructor(retData), retPNames, retFNames, ptsKept, ftsKept
 
 def fileFetcher(source, overwrite):
     """
-- 
2.43.0


From 8b1f9e89c628993f198be3963df398e77f4d0787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:20 +0000
Subject: [PATCH 186/220] fix: indices of a dict of types are refused for a
 file with kept features

---
 nimble/core/_createHelpers.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index b43d1e4..b609196 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1381,6 +1381,20 @@ def convertToTypeDictToList(convertToType, featuresObj, featureNames):
 
     return convertList
 
+def _validateConvertToTypeKeys(convertToType):
+    """
+    When limiting the features, the keys in a dict must be names.
+    """
+    if (isinstance(convertToType, dict)
+            and not all(isinstance(t, str) for t in convertToType.keys())):
+        msg = "When limiting the features using keepFeatures, the keys in a "
+        msg += "convertToType dict cannot be index values because it is "
+        msg += "ambiguous as to whether they reference the full dataset or "
+        msg += "limited dataset. Use featureNames as keys or a list to "
+        msg += "eliminate the ambiguity. None may be used in the list for "
+        msg += "features that do not require conversion."
+        raise InvalidArgumentTypeCombination(msg)
+
 def analyzeValues(rawData, returnType, skipDataProcessing):
     """
     Validates the data values and determines the returnType.
@@ -1478,15 +1492,7 @@ def initDataObject(
         _checkForDuplicates(keepPoints, 'keepPoints')
     if limitFeatures:
         _checkForDuplicates(keepFeatures, 'keepFeatures')
-    if (limitFeatures and isinstance(convertToType, dict)
-            and not all(isinstance(t, str) for t in convertToType.keys())):
-        msg = "When limiting the features using keepFeatures, the keys in a "
-        msg += "convertToType dict cannot be index values because it is "
-        msg += "ambiguous as to whether they reference the full dataset or "
-        msg += "limited dataset. Use featureNames as keys or a list to "
-        msg += "eliminate the ambiguity. None may be used in the list for "
-        msg += "features that do not require conversion."
-        raise InvalidArgumentTypeCombination(msg)
+        _validateConvertToTypeKeys(convertToType)
 
     # record if extraction occurred before we possibly modify *Names parameters
     ptsExtracted = extracted[0] if extracted[0] else pointNames is True
@@ -2282,6 +2288,8 @@ def createDataFromFile(
     with ioStream as toLoad:
         selectSuccess = False
         if extension == 'csv':
+            if keepFeatures != 'all':
+                _validateConvertToTypeKeys(convertToType)
             emptyIsMissing = (treatAsMissing is not None
                               and '' in treatAsMissing)
             loaded = _loadcsvUsingPython(
-- 
2.43.0


From 37bc130bac74154ff7feaaabf58b9e5b8b95e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:09 +0000
Subject: [PATCH 187/220] fix: the mode of features accepts its documented
 groupByFeature argument

---
 nimble/core/data/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index ac63a77..e1e663d 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2977,7 +2977,7 @@ class Features(ABC):
    
     
     @limitedTo2D
-    def mode(self,grouByFeature=None):
+    def mode(self, groupByFeature=None):
         """
         Returns a nimble object representing the mode along 
         the features axis.
@@ -3000,7 +3000,7 @@ class Features(ABC):
          mode │ 0  2  2
         >
         """
-        return self._mode(grouByFeature)
+        return self._mode(groupByFeature)
     
     @limitedTo2D
     def sum(self, groupByFeature=None):
-- 
2.43.0


From 55823a19accded72fd6fcba9cfda8e9eb2f552c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:29 +0000
Subject: [PATCH 188/220] fix: slices with a negative step begin at the last
 position by default

---
 nimble/core/data/axis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index f311526..f694d96 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1089,9 +1089,10 @@ class Axis(ABC):
         if isinstance(key, slice):
             if key == slice(None): # full slice
                 return None
-            start = key.start if key.start is not None else 0
-            stop = key.stop if key.stop is not None else length - 1
             step = key.step if key.step is not None else 1
+            first, last = (0, length - 1) if step > 0 else (length - 1, 0)
+            start = key.start if key.start is not None else first
+            stop = key.stop if key.stop is not None else last
 
             start = self._getIndex(start, allowFloats=True)
             stop = self._getIndex(stop, allowFloats=True)
-- 
2.43.0


From 184dc0ef765c7df73cc32533fbd711d652f78b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:23 +0000
Subject: [PATCH 189/220] fix: no points or features chosen for
 calculateOnElements means none

---
 nimble/core/data/base.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index ee05048..563abb1 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1103,9 +1103,9 @@ class Base(ABC):
                 vectorized, points, features, preserveZeros)
 
         else:
-            if not points:
+            if points is None:
                 points = list(range(len(self.points)))
-            if not features:
+            if features is None:
                 features = list(range(len(self.features)))
             # if unable to vectorize, iterate over each point
             values = np.empty([len(points), len(features)])
@@ -1134,14 +1134,12 @@ class Base(ABC):
 
     def _calculate_genericVectorized(self, function, points, features):
         # need points/features as arrays for indexing
-        if points:
-            points = np.array(points)
-        else:
-            points = np.array(range(len(self.points)))
-        if features:
-            features = np.array(features)
-        else:
-            features = np.array(range(len(self.features)))
+        if points is None:
+            points = range(len(self.points))
+        if features is None:
+            features = range(len(self.features))
+        points = np.array(points, dtype=int)
+        features = np.array(features, dtype=int)
         toCalculate = self.copy(to='numpyarray')
         # array with only desired points and features
         toCalculate = toCalculate[points[:, None], features]
-- 
2.43.0


From eab7648cdcba11622509f7093fdef761b4958320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:41 +0000
Subject: [PATCH 190/220] fix: log entries with non-finite floats are shown in
 the format of their type

---
 nimble/core/logger/session_logger.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index af78e4f..f04d372 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -39,7 +39,7 @@ from time import strftime
 import inspect
 import re
 import sqlite3
-from ast import literal_eval
+from ast import literal_eval, parse, Constant, NodeTransformer
 import textwrap
 import datetime
 from configparser import NoSectionError
@@ -1325,6 +1325,23 @@ logBuilders = {'load': (_buildLoadLogString, 1),
                'tuning': (_buildTuneLogString, 2),
                'setSeed': (_buildSetSeedLogString, 1)}
 
+class _NonFiniteFloats(NodeTransformer):
+    """
+    Replace the names used to represent non-finite floats with values.
+    """
+    def visit_Name(self, node):
+        if node.id in ('nan', 'inf'):
+            return Constant(float(node.id))
+        return node
+
+def _evaluateLogString(logString):
+    """
+    Evaluate the string of the log information stored in the database.
+    """
+    tree = parse(logString, mode='eval')
+    # literal_eval cannot evaluate the string of a non-finite float
+    return literal_eval(_NonFiniteFloats().visit(tree))
+
 def _showLogOutputString(listOfLogs, levelOfDetail, append):
     """
     Formats the string that will be output for calls to the showLog
@@ -1341,7 +1358,7 @@ def _showLogOutputString(listOfLogs, levelOfDetail, append):
         logType = entry[2]
         logString = entry[3]
         try:
-            logInfo = literal_eval(logString)
+            logInfo = _evaluateLogString(logString)
         except (ValueError, SyntaxError):
             # logString is a string (cannot eval)
             logInfo = logString
-- 
2.43.0


From 01fb7f7cecea858dc3df0dd64f38388ae89aa4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:19 +0000
Subject: [PATCH 191/220] fix: training a keras learner does not modify the
 Init objects given

---
 nimble/core/interfaces/keras_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/interfaces/keras_interface.py b/nimble/core/interfaces/keras_interface.py
index 9935b2e..b2ac8da 100644
--- a/nimble/core/interfaces/keras_interface.py
+++ b/nimble/core/interfaces/keras_interface.py
@@ -580,6 +580,9 @@ To install keras
         Precurser to the _argumentInit method to handle keras specific objects
         that require random seeding.
         """
+        # the object provided by the user must not be modified
+        toInit = nimble.Init(toInit.name, **toInit.kwargs)
+
         unpack = self._paramQuery('__init__', toInit.name, ['self'])
         params, _, _, defaults = unpack
 
-- 
2.43.0


From 2df70e1545ae406cda2683c1d5d553b7255e75e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:50 +0000
Subject: [PATCH 192/220] fix: initializer objects given to keras layers are
 used

---
 nimble/core/interfaces/keras_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/interfaces/keras_interface.py b/nimble/core/interfaces/keras_interface.py
index b2ac8da..bcc1402 100644
--- a/nimble/core/interfaces/keras_interface.py
+++ b/nimble/core/interfaces/keras_interface.py
@@ -608,6 +608,9 @@ To install keras
             elif present and isinstance(toInit.kwargs[name], str):
                 lizerName = toInit.kwargs[name]
                 lizerArgs = {}
+            # user is specifying an initializer object (or None)
+            elif present:
+                continue
             # nothing provided, use default value
             else:
                 lizerName = defaultVal
-- 
2.43.0


From 51be38b502e144da91748b8719481dd1f018e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:52 +0000
Subject: [PATCH 193/220] fix: keras classifiers predict the label of a single
 point

---
 nimble/core/interfaces/keras_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/keras_interface.py b/nimble/core/interfaces/keras_interface.py
index bcc1402..c006cf6 100644
--- a/nimble/core/interfaces/keras_interface.py
+++ b/nimble/core/interfaces/keras_interface.py
@@ -505,7 +505,7 @@ To install keras
             # This indicates we're in the distribution case; argmax will
             # grab the right category regardless of encoding via probability
             # or logits
-            if len(ret) > 1 and len(ret[0]) > 1:
+            if len(ret) > 0 and len(ret[0]) > 1:
                 ret = np.argmax(ret, axis=1)
             # means we must be in the single value case and have to distinguish
             # between logits and probability
-- 
2.43.0


From 69ebae669cfd8723df3e6478fdb0e1d5a84bf823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:52 +0000
Subject: [PATCH 194/220] fix: the scores of keras classifiers are for the
 label of each output

---
 nimble/core/interfaces/keras_interface.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/keras_interface.py b/nimble/core/interfaces/keras_interface.py
index c006cf6..22fd452 100644
--- a/nimble/core/interfaces/keras_interface.py
+++ b/nimble/core/interfaces/keras_interface.py
@@ -458,7 +458,11 @@ To install keras
         learner.fit(**fitParams)
 
         if self._learnerType(learner) == 'classification':
-            learner.UIgetScoreOrder = np.unique(trainY)
+            numOutputs = learner.output_shape[-1]
+            if numOutputs > 1: # a score for the label of each position
+                learner.UIgetScoreOrder = np.arange(numOutputs)
+            else:
+                learner.UIgetScoreOrder = np.unique(trainY)
 
         return learner
 
-- 
2.43.0


From f6ec50cd4aaac73730f898f5e3a9501afb410e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:52 +0000
Subject: [PATCH 195/220] fix: the scores of binary keras classifiers agree
 with the predicted labels

---
 nimble/core/interfaces/keras_interface.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nimble/core/interfaces/keras_interface.py b/nimble/core/interfaces/keras_interface.py
index 22fd452..1a2c45c 100644
--- a/nimble/core/interfaces/keras_interface.py
+++ b/nimble/core/interfaces/keras_interface.py
@@ -331,9 +331,14 @@ To install keras
     def _getScores(self, learnerName, learner, testX, newArguments,
                    storedArguments, customDict):
         if self._learnerType(learner) == 'classification':
-            return self._applyBackend(learnerName, learner, testX,
-                                      newArguments, storedArguments,
-                                      customDict)
+            ret = self._applyBackend(learnerName, learner, testX,
+                                     newArguments, storedArguments,
+                                     customDict)
+            fromLogits = getattr(learner.loss, "from_logits", False)
+            if len(ret.shape) == 2 and ret.shape[1] == 1 and not fromLogits:
+                # the only output is the probability of the second label
+                ret = np.hstack([1 - ret, ret])
+            return ret
 
         raise NotImplementedError('Cannot get scores for this learner')
 
-- 
2.43.0


From 9e7db658d0a065d5938a026e66f59ead6a2db3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:43 +0000
Subject: [PATCH 196/220] fix: autoimpute learners locate the unnamed points
 and features

---
 .../core/interfaces/autoimpute_interface.py   | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/nimble/core/interfaces/autoimpute_interface.py b/nimble/core/interfaces/autoimpute_interface.py
index f077b24..7d0265c 100644
--- a/nimble/core/interfaces/autoimpute_interface.py
+++ b/nimble/core/interfaces/autoimpute_interface.py
@@ -158,14 +158,33 @@ To install autoimpute
                 except ValueError:
                     pass
 
+        def distinctLabels(labels):
+            # unnamed points or features all have None as their label, which
+            # autoimpute cannot use to locate them
+            labels = list(labels)
+            if all(label is None for label in labels):
+                return range(len(labels))
+            for i, label in enumerate(labels):
+                if label is None:
+                    label = f'_{i}_'
+                    while label in labels:
+                        label = '_' + label
+                    labels[i] = label
+            return labels
+
+        def toDataFrame(obj):
+            dataframe = obj.copy(to='pandasdataframe')
+            dataframe.index = distinctLabels(dataframe.index)
+            dataframe.columns = distinctLabels(dataframe.columns)
+            dtypeConvert(dataframe)
+            return dataframe
+
         if trainX is not None:
             customDict['match'] = trainX.getTypeString()
-            trainX = trainX.copy(to='pandasdataframe')
-            dtypeConvert(trainX)
+            trainX = toDataFrame(trainX)
 
         if trainY is not None:
-            trainY = trainY.copy(to='pandasdataframe')
-            dtypeConvert(trainY)
+            trainY = toDataFrame(trainY)
             # trainY columns cannot be same as trainX in autoimpute
             if (trainX is not None
                     and any(col in trainX.columns for col in trainY.columns)):
@@ -173,8 +192,7 @@ To install autoimpute
                 trainY.columns = yCols
 
         if testX is not None:
-            testX = testX.copy(to='pandasdataframe')
-            dtypeConvert(testX)
+            testX = toDataFrame(testX)
 
         instantiatedArgs = {}
         for arg, val in arguments.items():
-- 
2.43.0


From f652bae26fefbed3ce468807a5c851234d8ee65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:09 +0000
Subject: [PATCH 197/220] fix: text in the first row calculated from elements
 or by mapReduce is data

---
 nimble/core/data/axis.py | 4 +++-
 nimble/core/data/base.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index f694d96..3597068 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -772,7 +772,9 @@ class Axis(ABC):
                 if redRet is not None:
                     (redKey, redValue) = redRet
                     ret.append([redKey, redValue])
-            ret = nimble.data(ret, returnType=self._base.getTypeString(),
+            # text in the first row is a value, not a name
+            ret = nimble.data(ret, pointNames=False, featureNames=False,
+                              returnType=self._base.getTypeString(),
                               useLog=False)
 
         ret._absPath = self._base.absolutePath
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 563abb1..9d188bb 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1124,7 +1124,9 @@ class Base(ABC):
                     fIdx += 1
                 pIdx += 1
 
-        ret = nimble.data(values, returnType=optType, treatAsMissing=[None],
+        # text in the first row is a value, not a name
+        ret = nimble.data(values, pointNames=False, featureNames=False,
+                          returnType=optType, treatAsMissing=[None],
                           useLog=False)
 
         ret._absPath = self.absolutePath
-- 
2.43.0


From 1b526bf6597dd37040c4ad6f068b95aa90ae00e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:59 +0000
Subject: [PATCH 198/220] fix: negative and out of range integral float indices
 are validated

---
 nimble/core/data/axis.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 3597068..2163b79 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -350,6 +350,13 @@ class Axis(ABC):
             msg = "There are no valid " + self._axis + " identifiers; "
             msg += "this object has 0 " + self._axis + "s"
             raise IndexError(msg)
+        if allowFloats and isinstance(identifier, (float, np.float64)):
+            if identifier % 1: # x!=int(x)
+                idVal = str(identifier)
+                msg = "A float valued key of value x is only accepted if x == "
+                msg += "int(x). The given value was " + idVal
+                raise KeyError(msg)
+            identifier = int(identifier)
         if isinstance(identifier, (int, np.integer)):
             if identifier < 0:
                 identifier = num + identifier
@@ -360,14 +367,6 @@ class Axis(ABC):
                 raise IndexError(msg)
         elif isinstance(identifier, str):
             identifier = self._getIndexByName(identifier)
-        elif allowFloats and isinstance(identifier, (float, np.float64)):
-            if identifier % 1: # x!=int(x)
-                idVal = str(identifier)
-                msg = "A float valued key of value x is only accepted if x == "
-                msg += "int(x). The given value was " + idVal + " yet int("
-                msg += idVal + ") = " + str(int(identifier))
-                raise KeyError(msg)
-            identifier = int(identifier)
         else:
             msg = "The identifier must be either a string (a valid "
             msg += self._axis + " name) or an integer (python or numpy) index "
-- 
2.43.0


From bc3d5ca92b84fbc9170d5e40d1f13372a09f0c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:06 +0000
Subject: [PATCH 199/220] fix: text in the first row of the output of a learner
 is data

---
 nimble/core/interfaces/custom_learner.py         | 4 +++-
 nimble/core/interfaces/scikit_learn_interface.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index 3b7ca3e..7c27d4f 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -150,7 +150,9 @@ class CustomLearnerInterface(UniversalInterface):
             # object that it stores, or a View
             return outputValue.copy()
 
-        return nimble.data(outputValue, useLog=False)
+        # text in the first row is a value, not a name
+        return nimble.data(outputValue, pointNames=False, featureNames=False,
+                           useLog=False)
 
     def _trainer(self, learnerName, trainX, trainY, arguments, randomSeed,
                  customDict):
diff --git a/nimble/core/interfaces/scikit_learn_interface.py b/nimble/core/interfaces/scikit_learn_interface.py
index 222ffa6..bfa80ec 100644
--- a/nimble/core/interfaces/scikit_learn_interface.py
+++ b/nimble/core/interfaces/scikit_learn_interface.py
@@ -566,7 +566,9 @@ To install scikit-learn
         outputType = 'Matrix'
         if outputType == 'match':
             outputType = customDict['match']
-        return nimble.data(outputValue, returnType=outputType, useLog=False)
+        # text in the first row is a value, not a name
+        return nimble.data(outputValue, pointNames=False, featureNames=False,
+                           returnType=outputType, useLog=False)
 
     def _initLearner(self, learnerName, trainX, trainY, arguments, randomSeed):
         initNames = self._paramQuery('__init__', learnerName, ['self'])[0]
-- 
2.43.0


From ba580367762ba7b67b2f3e1882e557eaf4c16347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:11 +0000
Subject: [PATCH 200/220] fix: text in the first row of the raw data given to
 replace is data

---
 nimble/core/data/axis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 2163b79..3d4fff5 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -682,6 +682,11 @@ class Axis(ABC):
                 pnames.append(dataKwds.pop('pointNames'))
             if 'featureNames' in dataKwds:
                 fnames.append(dataKwds.pop('featureNames'))
+            if (isinstance(data, np.ndarray)
+                    or (isinstance(data, (list, tuple))
+                        and not any(isinstance(d, dict) for d in data))):
+                # text in the first row is a value, not a name
+                dataKwds['pointNames'] = dataKwds['featureNames'] = False
             dataObj = nimble.data(**dataKwds)
             ax, offAx = (1, 0) if self._isPoint else (0, 1)
             if dataObj.shape[ax] == 1 and dataObj.shape[offAx] > 1:
-- 
2.43.0


From 68abd68620717bd5701f96a992cbca1cd1a7709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 201/220] fix: a forced union merge on the index of an unnamed
 feature is sorted by it

---
 nimble/core/data/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 9d188bb..97ee170 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4663,6 +4663,9 @@ class Base(ABC):
         sortBy = onFeature
         if onFeature is not None and not isinstance(onFeature, str):
             sortBy = self.features.getName(onFeature)
+            if sortBy is None:
+                # can only be named by other, so the index will not change
+                sortBy = onFeature
 
         if point == 'strict' or feature == 'strict':
             self._genericStrictMerge_implementation(other, point, feature,
-- 
2.43.0


From b44e1df5eff44f618bb6e883f440e4d2d47c95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:02 +0000
Subject: [PATCH 202/220] fix: a transformation that fails leaves the object as
 it was

---
 nimble/core/data/axis.py   |  3 ++-
 nimble/core/data/base.py   | 16 +++++++++++++++-
 nimble/core/data/sparse.py | 13 +++++++++++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 3d4fff5..9d35588 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -529,7 +529,8 @@ class Axis(ABC):
         if limitTo is not None:
             limitTo = constructIndicesList(self._base, self._axis, limitTo)
 
-        self._transform_implementation(wrappedFunc, limitTo)
+        with self._base._restoreOnFailure():
+            self._transform_implementation(wrappedFunc, limitTo)
 
     ###########################
     # Higher Order Operations #
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 97ee170..5dc5463 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -410,6 +410,19 @@ class Base(ABC):
         """
         return self.absolutePath
 
+    @contextmanager
+    def _restoreOnFailure(self):
+        """
+        The data is put back when a modification that was in progress
+        cannot be completed, so it is never partially modified.
+        """
+        saved = self.copy()._data
+        try:
+            yield
+        except BaseException:
+            self._data = saved
+            raise
+
     @contextmanager
     def _treatAs2D(self):
         """
@@ -822,7 +835,8 @@ class Base(ABC):
                                               skipNoneReturnValues,
                                               'toTransform')
 
-        self._transform_implementation(transformer, points, features)
+        with self._restoreOnFailure():
+            self._transform_implementation(transformer, points, features)
 
 
     @limitedTo2D
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index b67d80b..d49a1b8 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -22,6 +22,7 @@ coo_matrix.
 
 import warnings
 import numbers
+from contextlib import contextmanager
 
 import numpy as np
 
@@ -143,6 +144,18 @@ class Sparse(Base):
         return toPlot._plot(includeColorbar, outPath, show, title, xAxisLabel,
                             yAxisLabel, **kwargs)
 
+    @contextmanager
+    def _restoreOnFailure(self):
+        saved = self._data
+        parts = saved.data.copy(), saved.row.copy(), saved.col.copy()
+        try:
+            yield
+        except BaseException:
+            saved.data, saved.row, saved.col = parts
+            self._data = saved
+            self._resetSorted()
+            raise
+
     def _transform_implementation(self, toTransform, points, features):
         if toTransform.preserveZeros:
             self._transformEachElement_zeroPreserve_implementation(
-- 
2.43.0


From a108daeeb60de0fea37fb296cb9f61cafbd35e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:26 +0000
Subject: [PATCH 203/220] fix: sorting by several identifiers modifies nothing
 when one is invalid

---
 nimble/core/data/axis.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 9d35588..f11c5c3 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1303,17 +1303,20 @@ class Axis(ABC):
         self._permute(sorted(self._getNames(), reverse=reverse))
 
     def _sortByIdentifier(self, index, reverse):
+        # the object is only modified once every identifier is known to work
+        self._permute(self._orderByIdentifier(index, reverse,
+                                              range(len(self))))
+
+    def _orderByIdentifier(self, index, reverse, order):
         if isinstance(index, list):
             for idx in index[::-1]:
-                self._sortByIdentifier(idx, reverse)
+                order = self._orderByIdentifier(idx, reverse, order)
+            return order
+        if self._axis == 'point':
+            data = list(self._base.features[index])
         else:
-            if self._axis == 'point':
-                data = self._base.features[index]
-            else:
-                data = self._base.points[index]
-            sortedIndex = sorted(enumerate(data), key=operator.itemgetter(1),
-                                 reverse=reverse)
-            self._permute((val[0] for val in sortedIndex))
+            data = list(self._base.points[index])
+        return sorted(order, key=data.__getitem__, reverse=reverse)
 
     def _sortByFunction(self, func, reverse):
         sortedData = sorted(enumerate(self), key=lambda x: func(x[1]),
-- 
2.43.0


From 64472eaf512853a21f744bf11a4cf4758ee65292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:06 +0000
Subject: [PATCH 204/220] fix: a normalization that fails leaves both objects
 as they were

---
 nimble/core/data/features.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index e1e663d..99639b3 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2007,13 +2007,22 @@ class Features(ABC):
                 features = constructIndicesList(self._base, self._axis,
                                                 features)
             zipFeatures = zip(self, applyResultTo.features)
+            indices, norms1, norms2 = [], [], []
             for i, (ft1, ft2) in enumerate(zipFeatures):
                 if features is None or i in features:
-                    # pylint: disable=cell-var-from-loop
                     norm1, norm2 = function(ft1, ft2)
-                    self.transform(lambda _: norm1, features=i, useLog=False)
-                    applyResultTo.features.transform(
-                        lambda _: norm2, features=i, useLog=False)
+                    indices.append(i)
+                    norms1.append(norm1)
+                    norms2.append(norm2)
+            iter1, iter2 = iter(norms1), iter(norms2)
+            if not indices:
+                return
+            # neither object is modified unless both can be
+            with self._base._restoreOnFailure():
+                self.transform(lambda _: next(iter1), features=indices,
+                               useLog=False)
+                applyResultTo.features.transform(
+                    lambda _: next(iter2), features=indices, useLog=False)
         else:
             msg = 'applyResultTo must be None or an instance of Base'
             raise InvalidArgumentType(msg)
-- 
2.43.0


From 6d5ce3310341195b02afa62e04b1bee665eee847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:56 +0000
Subject: [PATCH 205/220] fix: setting several items takes an array or list
 matching the selection

---
 nimble/core/data/base.py | 59 ++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 5dc5463..ee8db5b 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2287,24 +2287,49 @@ class Base(ABC):
         else:
             y = self.features._processMultiple(y)
         
-        # Perform setting operation based on single or multiple indices
-        if single_x and single_y:
-            self._setitem_implementation(x, y, value)
+        # full slices are None, see _processMultiple
+        if single_x:
+            x = [x]
+        elif x is None:
+            x = range(len(self.points))
+        if single_y:
+            y = [y]
+        elif y is None:
+            y = range(len(self.features))
+
+        if isinstance(value, (list, tuple, np.ndarray, Base)):
+            values = self._setitemValues(value, (len(x), len(y)))
         else:
-            # full slices are None, see _processMultiple
-            if single_x:
-                x = [x]
-            elif x is None:
-                x = range(len(self.points))
-            if single_y:
-                y = [y]
-            elif y is None:
-                y = range(len(self.features))
-            for i in x:
-                for j in y:
-                    self._setitem_implementation(i, j, value)
-        
-    
+            values = None
+
+        # Perform setting operation for each index
+        for i, xIdx in enumerate(x):
+            for j, yIdx in enumerate(y):
+                if values is not None:
+                    value = values[i, j]
+                self._setitem_implementation(xIdx, yIdx, value)
+
+    def _setitemValues(self, value, shape):
+        """
+        The values to set as a two-dimensional array with the shape of the
+        selection. One-dimensional values are allowed if the selection is
+        also one-dimensional.
+        """
+        if isinstance(value, Base):
+            value = value.copy('numpyarray')
+        try:
+            values = np.array(value, dtype=np.object_)
+        except ValueError:
+            values = None # inconsistent lengths
+        if values is not None and values.ndim == 1 and 1 in shape:
+            if values.size == shape[0] * shape[1]:
+                values = values.reshape(shape)
+        if values is None or values.shape != shape:
+            msg = 'value must be a single value or match the size of the '
+            msg += f'selection, {shape[0]} points and {shape[1]} features'
+            raise InvalidArgumentValue(msg)
+        return values
+
     def pointView(self, identifier):
         """
         A read-only view of a single point.
-- 
2.43.0


From 8fa314c6e34cfdd8aa8b42fa9a944b002ca440b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:56 +0000
Subject: [PATCH 206/220] fix: expanding no features is refused before the
 object is modified

---
 nimble/core/data/points.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index 3198613..127cb05 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -2137,6 +2137,9 @@ class Points(ABC):
         namesIdx = self._base.features.getIndex(featureWithFeatureNames)
         if not isinstance(featuresWithValues, list):
             featuresWithValues = [featuresWithValues]
+        if not featuresWithValues:
+            msg = "featuresWithValues must contain at least one feature"
+            raise InvalidArgumentValue(msg)
         valuesIdx = [self._base.features.getIndex(idx) for idx
                      in featuresWithValues]
         combinedIdx = [namesIdx] + valuesIdx
-- 
2.43.0


From 3ff3c745889796360ca4037bde72f853295bb2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:21 +0000
Subject: [PATCH 207/220] fix: an in-place operation that is refused does not
 convert the object

---
 nimble/core/data/base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index ee8db5b..bdeb971 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5561,16 +5561,20 @@ class Base(ABC):
             raise ImproperObjectAction(msg) from e
 
     def _genericBinaryOperations(self, opName, other):
+        # operations with a Stretch object always provide a new object
+        if opName.startswith('__i') and not isinstance(other, Stretch):
+            # an operation that turns out to be invalid modifies nothing
+            with self._restoreOnFailure():
+                return self._binaryOperationsBackend(self, opName, other)
+
+        return self._binaryOperationsBackend(self.copy(), opName, other)
+
+    def _binaryOperationsBackend(self, obj, opName, other):
         conversionKwargs = {}
         if 'pow' in opName:
             conversionKwargs['allowInt'] = False
             conversionKwargs['allowBool'] = False
 
-        if opName.startswith('__i'):
-            obj = self
-        else:
-            obj = self.copy()
-
         try:
             obj._convertToNumericTypes(**conversionKwargs)
         except ImproperObjectAction:
-- 
2.43.0


From 1f8e781694d2f68342104b1be8943722f1c9e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:49 +0000
Subject: [PATCH 208/220] fix: merging on a feature holding both text and
 numbers

---
 nimble/core/data/base.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index bdeb971..c6dbc96 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4714,9 +4714,23 @@ class Base(ABC):
         
         if point == 'union':
             if onFeature is not None:
-                self.points.sort(by=sortBy, useLog=False)
-        
+                self._sortMerged(sortBy)
+
             
+    @staticmethod
+    def _mergeOrder(value):
+        """
+        Values of different types have no order, numbers are placed first
+        and text last.
+        """
+        number = isinstance(value, (numbers.Number, np.bool_))
+        return (not number, isinstance(value, str), value)
+
+    def _sortMerged(self, sortBy):
+        keys = [self._mergeOrder(val) for val in self.features[sortBy]]
+        self.points.permute(sorted(range(len(keys)), key=keys.__getitem__),
+                            useLog=False)
+
     def _genericStrictMerge_implementation(self, other, point, feature,
                                            onFeature, force):
         """
@@ -4752,7 +4766,9 @@ class Base(ABC):
                     msg = "when point='strict', onFeature must contain only "
                     msg += "unique values"
                     raise InvalidArgumentValueCombination(msg)
-                if sorted(feat) != sorted(tmpOther[:, onFeature]):
+                otherFeat = tmpOther[:, onFeature]
+                if (sorted(feat, key=self._mergeOrder)
+                        != sorted(otherFeat, key=self._mergeOrder)):
                     msg = "When point='strict', onFeature must have a unique, "
                     msg += "matching value in each object"
                     raise InvalidArgumentValueCombination(msg)
-- 
2.43.0


From bbf97cb663eb4aecc8db2f852287e07574fe7d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:47 +0000
Subject: [PATCH 209/220] fix: merging data frames on a feature of numbers and
 a feature of text

---
 nimble/core/data/dataframe.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 1fae49a..c3ab905 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -383,7 +383,19 @@ class DataFrame(Base):
             merged = merged.loc[[n for n in order if n in inMerged]]
         else:
             tmpDfR = tmpDfR.rename(columns={onIdxR + numColsL: onIdxL})
+            if object in (tmpDfL[onIdxL].dtype, tmpDfR[onIdxL].dtype):
+                # pandas does not support merging text with numbers, the
+                # values are replaced by integers to identify them
+                values = [*tmpDfL[onIdxL], *tmpDfR[onIdxL]]
+                codes, uniques = pd.factorize(np.array(values, dtype=object))
+                tmpDfL[onIdxL] = codes[:len(tmpDfL)]
+                tmpDfR[onIdxL] = codes[len(tmpDfL):]
+            else:
+                uniques = None
             merged = tmpDfL.merge(tmpDfR, how=point, on=onIdxL)
+            if uniques is not None:
+                uniques = np.append(uniques, np.nan) # -1 for missing values
+                merged[onIdxL] = uniques[merged[onIdxL].to_numpy()]
 
         # return labels to default after we've executed the merge
         merged.index = pd.RangeIndex(merged.shape[0])
-- 
2.43.0


From 710b084cd9caf4209f851aca1cf9f4ec85471f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:36 +0000
Subject: [PATCH 210/220] fix: an incremental training that fails does not
 change the labels of the learner

---
 nimble/core/interfaces/custom_learner.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index 7c27d4f..39fc994 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -174,14 +174,19 @@ class CustomLearnerInterface(UniversalInterface):
 
     def _incrementalTrainer(self, learnerName, learner, trainX, trainY,
                             arguments, randomSeed, customDict):
+        previousLabels = learner.labelList
         if learner.__class__.learnerType == 'classification':
             flattenedY = labelConvert(trainY.copy(to='numpyarray').flatten())
             if learner.labelList is None: # no previous training
                 learner.labelList = []
             learner.labelList = np.union1d(learner.labelList, flattenedY)
 
-        with nimble.random.alternateControl(randomSeed, useLog=False):
-            learner.incrementalTrain(trainX, trainY, **arguments)
+        try:
+            with nimble.random.alternateControl(randomSeed, useLog=False):
+                learner.incrementalTrain(trainX, trainY, **arguments)
+        except Exception:
+            learner.labelList = previousLabels
+            raise
 
         return learner
 
-- 
2.43.0


From d52d2f59c886a87320d0d7d2b23c4a3f90719f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:43 +0000
Subject: [PATCH 211/220] fix: incremental training of one learner per label or
 pair trains all of them

---
 nimble/core/interfaces/universal_interface.py | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index db884e4..259dd89 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -2011,6 +2011,44 @@ class TrainedLearners(TrainedLearner):
         handleLogging(useLog, 'TLrun', self, 'retrain', self.arguments, trainX,
                       trainY, randomSeed=self.randomSeed)
 
+    @captureOutput
+    def incrementalTrain(self, trainX, trainY=None, arguments=None,
+                         randomSeed=None, *, useLog=None):
+        validateLearningArguments(trainX, trainY,
+                                  multiClassStrategy=self.method)
+        randomSeed = self._interface._getValidSeed(randomSeed)
+        # separate training data / labels if needed
+        if isinstance(trainY, (str, int, np.integer)):
+            trainX = trainX.copy()
+            trainY = trainX.features.extract(toExtract=trainY, useLog=False)
+        labels = trainY.copy('pythonlist', outputAs1D=True)
+        if any(label not in self._labelSet for label in labels):
+            msg = 'trainY can only contain labels of the previous training '
+            msg += f'when multiClassStrategy is {self.method}'
+            raise InvalidArgumentValue(msg)
+        # the data is provided to each learner as it was during training
+        trainSets = []
+        if self.method == 'OneVsAll':
+            for label in self._labelSet:
+                trainSets.append((trainX, trainY.calculateOnElements(
+                    # pylint: disable=cell-var-from-loop
+                    lambda val: 1 if val == label else 0, useLog=False)))
+        else:
+            for pair in generateAllPairs(self._labelSet):
+                points = [i for i, lab in enumerate(labels) if lab in pair]
+                trainSets.append((trainX.points.copy(points, useLog=False),
+                                  trainY.points.copy(points, useLog=False)))
+        for learner, trainSet in zip(self._trainedLearnersList, trainSets):
+            if len(trainSet[0].points) > 0:
+                learner.incrementalTrain(*trainSet, arguments, randomSeed,
+                                         useLog=False)
+        if arguments is not None:
+            self._arguments = {**(self.arguments or {}), **arguments}
+
+        handleLogging(useLog, 'TLrun', self, 'incrementalTrain',
+                      self.arguments, trainX, trainY,
+                      randomSeed=self.randomSeed)
+
     @captureOutput
     def getScores(self, testX, arguments=None, **kwarguments):
         return self.apply(testX, arguments, 'allScores', useLog=False,
-- 
2.43.0


From 10d8bdc3cb46546be22d3a12ef3c5fb42d8116ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:04 +0000
Subject: [PATCH 212/220] fix: one versus one training accepts features and
 labels sharing names

---
 nimble/core/interfaces/universal_interface.py | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 259dd89..11d02e0 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -248,18 +248,15 @@ class UniversalInterface(metaclass=abc.ABCMeta):
             #1 VS 1
             if multiClassStrategy == 'OneVsOne':
                 # and trialResult != 'OneVsOne': ?
-                # want data and labels together in one object for this method
-                trainX = trainX.copy()
-                if isinstance(trainY, nimble.core.data.Base):
-                    trainX.features.append(trainY, useLog=False)
-                    trainY = len(trainX.features) - 1
+                #Remove true labels from from training set, if not separated
+                if isinstance(trainY, (str, numbers.Integral)):
+                    trainX = trainX.copy()
+                    trainY = trainX.features.extract(trainY, useLog=False)
 
                 # Get set of unique class labels, then generate list of all
                 # 2-combinations of class labels
-                labelVector = trainX.features.copy([trainY], useLog=False)
-                labelVector.transpose(useLog=False)
-                labelVectorToList = labelVector.copy(to="python list")[0]
-                labelSet = list(set(labelVectorToList))
+                labels = trainY.copy(to="python list", outputAs1D=True)
+                labelSet = list(set(labels))
                 labelPairs = generateAllPairs(labelSet)
 
                 # For each pair of class labels: train a classifier on the
@@ -267,11 +264,9 @@ class UniversalInterface(metaclass=abc.ABCMeta):
                 trainedLearners = []
                 for pair in labelPairs:
                     # get all points that have one of the labels in pair
-                    pairData = trainX.points.copy(
-                        # pylint: disable=cell-var-from-loop
-                        lambda point: point[trainY] in pair, useLog=False)
-                    pairTrueLabels = pairData.features.extract(trainY,
-                                                               useLog=False)
+                    points = [i for i, lab in enumerate(labels) if lab in pair]
+                    pairData = trainX.points.copy(points, useLog=False)
+                    pairTrueLabels = trainY.points.copy(points, useLog=False)
                     trainedLearners.append(
                         self._train(
                             learnerName, pairData, pairTrueLabels, arguments,
-- 
2.43.0


From a3c5c412ab051e448e7f32377cd42f17011541fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:01 +0000
Subject: [PATCH 213/220] fix: a boolean identifier is an index for every type

numpy used the identifier True of an axis as a mask, so getting and setting
an element of a Matrix read and overwrote a whole row.
---
 nimble/core/data/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index f11c5c3..10ff331 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -358,6 +358,8 @@ class Axis(ABC):
                 raise KeyError(msg)
             identifier = int(identifier)
         if isinstance(identifier, (int, np.integer)):
+            # as a plain int, numpy would use a bool as a mask
+            identifier = int(identifier)
             if identifier < 0:
                 identifier = num + identifier
             if identifier < 0 or identifier >= num:
-- 
2.43.0


From ee29137dfdc33dd37c5e87d23e944a5cfcc61dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:52 +0000
Subject: [PATCH 214/220] fix: a single element is stretched along the axis of
 the other object

The names of the axis that is stretched were compared as if it were the one
that matches, which raised an IndexError for different names.
---
 nimble/core/data/stretch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/stretch.py b/nimble/core/data/stretch.py
index e300574..a954097 100644
--- a/nimble/core/data/stretch.py
+++ b/nimble/core/data/stretch.py
@@ -162,7 +162,8 @@ class Stretch(object):
         else:
             stretchPossible = True
             if self._numPts == 1 and self._numFts == 1:
-                matchAxis = 'point' if len(other.points) > 1 else 'feature'
+                # the axis that is not stretched
+                matchAxis = 'point' if len(other.features) > 1 else 'feature'
                 if not 1 in other.shape:
                     stretchPossible = False
             elif self._numPts == 1:
-- 
2.43.0


From 8393b0f8ee04b25c31ef28512db81c9c9d79b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:03 +0000
Subject: [PATCH 215/220] fix: unflattening a single element restores its names

---
 nimble/core/data/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index c6dbc96..f42411d 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4277,6 +4277,11 @@ class Base(ABC):
             possibleNames = self.points.getNames()
         elif len(self.features) > 1 and self.features._namesCreated():
             possibleNames = self.features.getNames()
+        elif len(self.points) == len(self.features) == 1:
+            # either axis can hold the name of a single element
+            for axis in (self.features, self.points):
+                if not possibleNames and ' | ' in (axis.getNames()[0] or ''):
+                    possibleNames = axis.getNames()
         if not possibleNames:
             return (None, None)
         splitNames = []
-- 
2.43.0


From d50c9888132fac18698a987ff249740f6aad1f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:15 +0000
Subject: [PATCH 216/220] fix: modifying the parameters or defaults of a
 learner returned does not change them

The answers of learnerParameters and learnerParameterDefaults were the lists
and dictionaries which the interfaces cache and validate arguments with.
---
 nimble/core/_learnHelpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_learnHelpers.py b/nimble/core/_learnHelpers.py
index fe32fa7..19e2537 100644
--- a/nimble/core/_learnHelpers.py
+++ b/nimble/core/_learnHelpers.py
@@ -108,7 +108,9 @@ def _learnerQuery(name, queryType):
     else:
         raise InvalidArgumentValue("Unrecognized queryType: " + queryType)
 
-    ret = getattr(interface, toCallName)(learnerName)
+    # the interface may keep its lists and dictionaries for later use
+    ret = [info.copy() for info in
+           getattr(interface, toCallName)(learnerName)]
 
     if len(ret) == 1:
         return ret[0]
-- 
2.43.0


From 5d5927ae29073ee208a29f5e1585f39b95d73f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:50 +0000
Subject: [PATCH 217/220] fix: the type of a learner class that cannot be
 determined is reported

---
 nimble/core/learn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index 7694f16..6e475b2 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -85,12 +85,14 @@ def learnerType(learnerNames): # pylint: disable=redefined-outer-name
         currInterface, currName = _unpackLearnerName(name)
         allValidLearnerNames = currInterface.learnerNames()
         if not currName in allValidLearnerNames:
-            msg = name + " is not a valid learner on your machine."
+            msg = str(name) + " is not a valid learner on your machine."
             raise InvalidArgumentValue(msg)
         result = currInterface.learnerType(currName)
         if result == 'UNKNOWN':
             resultsList.append(None)
-            secondPassLearnerNames.append(name)
+            # name can be a class object
+            secondPassLearnerNames.append(
+                currInterface.getCanonicalName() + '.' + currName)
         else:
             resultsList.append(result)
             secondPassLearnerNames.append(None)
-- 
2.43.0


From 998f2168742156c4fc28599730d790abd76bfa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:46 +0000
Subject: [PATCH 218/220] fix: floor division of Sparse objects does not round
 the quotient first

---
 nimble/core/data/sparse.py | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index d49a1b8..3b77772 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -1037,37 +1037,33 @@ class Sparse(Base):
 
     def _genericFloordiv_implementation(self, opName, other):
         """
-        Perform floordiv by modifying the results of truediv.
-
-        There is no need for additional conversion when an inplace
-        operation is called because _binaryOperations_implementation will
-        return the self object in those cases, so the changes below are
-        reflected inplace.
+        Uses np.floor_divide on the nonzero values in the coo matrix.
         """
-        opSplit = opName.split('floordiv')
-        trueDiv = opSplit[0] + 'truediv__'
-        # ret is self for inplace operation
-        ret = self._binaryOperations_implementation(trueDiv, other)
-        ret._data.data = np.floor(ret._data.data)
-        ret._data.eliminate_zeros()
-        return ret
+        return self._dividendNonZeros_implementation(
+            np.floor_divide, opName, other)
 
     def _genericMod_implementation(self, opName, other):
         """
         Uses np.mod on the nonzero values in the coo matrix.
+        """
+        return self._dividendNonZeros_implementation(np.mod, opName, other)
+
+    def _dividendNonZeros_implementation(self, func, opName, other):
+        """
+        Apply a division function to the nonzero values of the dividend.
 
-        Since 0 % any value is 0, the zero values of the dividend can be
-        ignored for this operation. The divisor is known not to contain
-        zeros, but each of its values must be paired with the value of
-        the dividend in the same location.
+        Since this gives 0 for 0 and any value, the zero values of the
+        dividend can be ignored for these operations. The divisor is
+        known not to contain zeros, but each of its values must be
+        paired with the value of the dividend in the same location.
         """
         if not isinstance(other, Sparse):
             other = other.copy('Sparse')
         dividend, divisor = self._getSparseData(), other._getSparseData()
-        if opName == '__rmod__':
+        if opName.startswith('__r'):
             dividend, divisor = divisor, dividend
         row, col = dividend.row, dividend.col
-        ret = np.mod(dividend.data, divisor.toarray()[row, col])
+        ret = func(dividend.data, divisor.toarray()[row, col])
         coo = scipy.sparse.coo_matrix((ret, (row, col)), shape=self.shape)
         coo.eliminate_zeros() # remove any zeros introduced into data
 
-- 
2.43.0


From 30f6a85f01d710e462dbf1523b952de2c85ee70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:54 +0000
Subject: [PATCH 219/220] fix: missing values of the feature merged on are the
 same key for every type

---
 nimble/core/data/base.py   | 26 +++++++++++++++++---------
 nimble/core/data/list.py   | 11 ++++-------
 nimble/core/data/matrix.py | 10 ++++------
 3 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index f42411d..b13753d 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4726,10 +4726,12 @@ class Base(ABC):
     def _mergeOrder(value):
         """
         Values of different types have no order, numbers are placed first
-        and text last.
+        and text last, followed by missing values.
         """
+        if match.missing(value):
+            return (True, True, True, None)
         number = isinstance(value, (numbers.Number, np.bool_))
-        return (not number, isinstance(value, str), value)
+        return (False, not number, isinstance(value, str), value)
 
     def _sortMerged(self, sortBy):
         keys = [self._mergeOrder(val) for val in self.features[sortBy]]
@@ -4766,14 +4768,12 @@ class Base(ABC):
         # make sure each id has a unique match in the other object
         if onFeature is not None and axis == 'point':
             try:
-                feat = self[:, onFeature]
-                if len(set(feat)) != len(self.points):
+                if not self._allUnique(onFeature):
                     msg = "when point='strict', onFeature must contain only "
                     msg += "unique values"
                     raise InvalidArgumentValueCombination(msg)
-                otherFeat = tmpOther[:, onFeature]
-                if (sorted(feat, key=self._mergeOrder)
-                        != sorted(otherFeat, key=self._mergeOrder)):
+                if (set(map(missingAsNan, self[:, onFeature]))
+                        != set(map(missingAsNan, tmpOther[:, onFeature]))):
                     msg = "When point='strict', onFeature must have a unique, "
                     msg += "matching value in each object"
                     raise InvalidArgumentValueCombination(msg)
@@ -4842,6 +4842,14 @@ class Base(ABC):
             else:
                 lAxis.setNames(endNames, useLog=False)
 
+    def _allUnique(self, feature):
+        """
+        True if no value in the feature is repeated. All missing values
+        are considered the same value.
+        """
+        unique = set(map(missingAsNan, self[:, feature]))
+        return len(unique) == len(self.points)
+
     def _genericMergeFrontend(self, other, point, feature, onFeature):
         # validation
         bothPtNamesCreated = (self.points._namesCreated()
@@ -4867,8 +4875,8 @@ class Base(ABC):
                     raise InvalidArgumentValue(msg)
                 onFeature = ftName
             try:
-                uniqueFtL = len(set(self[:, onFeature])) == len(self.points)
-                uniqueFtR = len(set(other[:, onFeature])) == len(other.points)
+                uniqueFtL = self._allUnique(onFeature)
+                uniqueFtR = other._allUnique(onFeature)
                 if not (uniqueFtL or uniqueFtR):
                     msg = "nimble only supports joining on a feature which "
                     msg += "contains only unique values in one or both objects"
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index b2ca049..fff71b7 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -449,14 +449,11 @@ class List(Base):
         merged = []
         unmatchedFtCountR = numFtsR - len(matchingFtIdx[1])
         matchMapper = {}
-        for pt in left:
-            match = [right[i] for i in range(len(right))
-                     if right[i][onIdxR] == pt[onIdxL]]
-            if len(match) > 0:
-                matchMapper[pt[onIdxL]] = match
+        for pt in right:
+            matchMapper.setdefault(missingAsNan(pt[onIdxR]), []).append(pt)
 
         for origL in left:
-            target = origL[onIdxL]
+            target = missingAsNan(origL[onIdxL])
             if target in matchMapper:
                 matchesR = matchMapper[target]
                 for ptR in matchesR:
@@ -493,7 +490,7 @@ class List(Base):
 
         if point == 'union':
             for row in right:
-                target = row[onIdxR]
+                target = missingAsNan(row[onIdxR])
                 if target not in matched:
                     pt = [np.nan] * (numFtsL + unmatchedFtCountR)
                     for i, j in zip(matchingFtIdx[0], matchingFtIdx[1]):
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index dbdd88d..cd8fc95 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -319,12 +319,10 @@ class Matrix(Base):
         merged = []
         unmatchedPtCountR = right.shape[1] - len(matchingFtIdx[1])
         matchMapper = {}
-        for pt in left:
-            matches = right[right[:, onIdxR] == pt[onIdxL]]
-            if len(matches) > 0:
-                matchMapper[pt[onIdxL]] = matches
+        for pt in right:
+            matchMapper.setdefault(missingAsNan(pt[onIdxR]), []).append(pt)
         for origL in left:
-            target = origL[onIdxL]
+            target = missingAsNan(origL[onIdxL])
             if target in matchMapper:
                 matchesR = matchMapper[target]
                 for ptR in matchesR:
@@ -361,7 +359,7 @@ class Matrix(Base):
             notMatchingR = [i for i in range(right.shape[1])
                             if i not in matchingFtIdx[1]]
             for row in right:
-                target = row[onIdxR]
+                target = missingAsNan(row[onIdxR])
                 if target not in matched:
                     ones = np.ones((left.shape[1] + unmatchedPtCountR,),
                                    dtype=np.object_)
-- 
2.43.0


From ddd633c60d56db8226840af44d3439ad040ce3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:05 +0000
Subject: [PATCH 220/220] fix: printing a single feature in a width it does not
 fit ends

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index b13753d..c13e4b3 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -6112,7 +6112,7 @@ class Base(ABC):
                     lColWidths.append(currWidths)
 
             # ignore column separator if the next column is the last
-            if numAdded == (numFts - 1):
+            if numAdded > 0 and numAdded == (numFts - 1):
                 totalWidth -= cHoldTotal
             totalWidth += len(colSep)
 
-- 
2.43.0

