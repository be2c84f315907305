From a642568e43a3dd2d9137be37549d8bd2b38c4d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 01/54] fix: 1D LUT with cubic interpolation raised NameError

---
 python/aces/clf/Array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 14cbbf7..5b666f9 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -511,7 +511,7 @@ class Array:
         dimensions = self._dimensions
 
         if dimensions[0] < 4 or not useSciPy or not sciPyEnabled:
-            return lookup1DLinear(position, channel)
+            return self.lookup1DLinear(position, channel)
 
         index = position*(dimensions[0]-1)
 
-- 
2.43.0


From e7e3fd023d7fc143f741cb99ab58d5115769897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 02/54] fix: 3D LUT lookup used the wrong strides for lattices
 of unequal sizes

---
 python/aces/clf/Array.py | 2 +-
 python/aces/clf/LUT3D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 5b666f9..a7f807c 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -538,7 +538,7 @@ class Array:
         # Corner cases
         index3 = map(lambda a, b: max(0, min(a, b-1)), index3, dimensions)
 
-        index1 = (index3[0]*dimensions[0]*dimensions[1] + index3[1]*dimensions[1] + index3[2])*3 
+        index1 = (index3[0]*dimensions[1]*dimensions[2] + index3[1]*dimensions[2] + index3[2])*3 
 
         #result = [values[index1], values[index1+1], values[index1+2]]
         result = values[index1:index1+3]
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index e164def..2d360fc 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -226,7 +226,7 @@ def simple3DLUT(id,
                 samplez = float(z)/(resolution[2]-1)
 
                 # Red changes fastest
-                lutValueIndex = (((x*resolution[0] +y)*resolution[1] + z))*channels
+                lutValueIndex = (((x*resolution[1] +y)*resolution[2] + z))*channels
 
                 fvalue = f(samplex, sampley, samplez)
                 lutValues[lutValueIndex:lutValueIndex+channels] = fvalue
-- 
2.43.0


From 0564e0880a928ec879a8d343c0a734c44ef89fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 03/54] fix: LUT3D.setArray changed the caller's dimension list

---
 python/aces/clf/LUT3D.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 2d360fc..027675f 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -87,8 +87,7 @@ class LUT3D(ProcessNode):
     # setIndexMaps
 
     def setArray(self, dimension, values, floatEncoding='string'):
-        dimensions = dimension
-        dimensions.append(3)
+        dimensions = list(dimension) + [3]
 
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
 
-- 
2.43.0


From cf58b9fe19b5c09b700e86d089a1fd86d1f6a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 04/54] fix: 3D LUT with an absent or unknown interpolation was
 not applied

---
 python/aces/clf/LUT3D.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 027675f..b03f9bf 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -171,14 +171,14 @@ class LUT3D(ProcessNode):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
             # Run color through LUT
-            # trilinear interpolation
-            if interpolation == 'trilinear':
-                outValue[0:3] = self._array.lookup3DTrilinear(outValue)
-
             # tetrahedral interpolation
-            elif interpolation == 'tetrahedral':
+            if interpolation == 'tetrahedral':
                 outValue[0:3] = self._array.lookup3DTetrahedral(outValue)
 
+            # trilinear interpolation is the default
+            else:
+                outValue[0:3] = self._array.lookup3DTrilinear(outValue)
+
             # Bit Depth conversion for output is ignored for LUTs
             # as LUT values are assumed to target a specific bit depth
             #for i in range(min(3, len(value))):
-- 
2.43.0


From 92dcc29741ad59ad06bc5e541b3b58142aa35bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 05/54] fix: setting an array or index maps again left the
 previous ones in the node

---
 python/aces/clf/LUT1D.py  | 9 +++++++++
 python/aces/clf/LUT3D.py  | 9 +++++++++
 python/aces/clf/Matrix.py | 7 +++++++
 3 files changed, 25 insertions(+)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 938bf0e..3b59573 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -77,6 +77,11 @@ class LUT1D(ProcessNode):
     # __init__
 
     def setIndexMaps(self, valuesR, valuesG = None, valuesB = None):
+        # Replace any existing index maps
+        for indexMap in self._indexMaps:
+            self._elements.remove(indexMap)
+        self._indexMaps = []
+
         indexMapR = IndexMap(len(valuesR[0]), valuesR)
         self._indexMaps.append( indexMapR ) 
         self.addElement( indexMapR )
@@ -98,6 +103,10 @@ class LUT1D(ProcessNode):
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
         rawHalfs = not (self.getAttribute('rawHalfs') in [None, False])
 
+        # Replace any existing array
+        if self._array != None:
+            self._elements.remove(self._array)
+
         self._array = Array(dimensions, 
             values, 
             rawHalfs=rawHalfs, 
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index b03f9bf..4218e54 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -71,6 +71,11 @@ class LUT3D(ProcessNode):
     # __init__
 
     def setIndexMaps(self, valuesR, valuesG = None, valuesB = None):
+        # Replace any existing index maps
+        for indexMap in self._indexMaps:
+            self._elements.remove(indexMap)
+        self._indexMaps = []
+
         indexMapR = IndexMap(len(valuesR[0]), valuesR)
         self._indexMaps.append( indexMapR ) 
         self.addElement( indexMapR )
@@ -91,6 +96,10 @@ class LUT3D(ProcessNode):
 
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
 
+        # Replace any existing array
+        if self._array != None:
+            self._elements.remove(self._array)
+
         self._array = Array(dimensions, 
             values, 
             integers,
diff --git a/python/aces/clf/Matrix.py b/python/aces/clf/Matrix.py
index 9fe54d2..63f4004 100644
--- a/python/aces/clf/Matrix.py
+++ b/python/aces/clf/Matrix.py
@@ -63,6 +63,8 @@ class Matrix(ProcessNode):
     def __init__(self, inBitDepth=bitDepths["FLOAT16"], outBitDepth=bitDepths["FLOAT16"], id="", name=""):
         "%s - Initialize the standard class variables" % 'Matrix'
         ProcessNode.__init__(self, 'Matrix', inBitDepth, outBitDepth, id, name)
+
+        self._array = None
     # __init__
 
     def setMatrix(self, dimensions, values, floatEncoding='string'):
@@ -71,6 +73,11 @@ class Matrix(ProcessNode):
             values, 
             integers,
             floatEncoding=floatEncoding)
+
+        # Replace any existing array
+        if self._array != None:
+            self._elements.remove(self._array)
+
         self._array = values
         self.addElement( values )
     # setMatrix
-- 
2.43.0


From d3cd0aa229b31c1a16a1dab89f093a0b9e84d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 06/54] fix: getIndexMapDimensions raised AttributeError

---
 python/aces/clf/LUT1D.py | 2 +-
 python/aces/clf/LUT3D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 3b59573..ce3b5f9 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -121,7 +121,7 @@ class LUT1D(ProcessNode):
         return self._array.getValues()
 
     def getIndexMapDimensions(self, channel):
-        return self._indexMaps[channel].getDimensions()
+        return self._indexMaps[channel].getDimension()
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 4218e54..cee941f 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -113,7 +113,7 @@ class LUT3D(ProcessNode):
         return self._array.getValues()
 
     def getIndexMapDimensions(self, channel):
-        return self._indexMaps[channel].getDimensions()
+        return self._indexMaps[channel].getDimension()
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
-- 
2.43.0


From 2c54714b353735802efe9166a78208fc4a612a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 07/54] fix: ASC CDL style RevNoClamp clamped its values

---
 python/aces/clf/ASCCDL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index dfeefe2..ce86252 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -218,9 +218,9 @@ class ASCCDL(ProcessNode):
                 for i in range(3):
                     outSat = luma + (1.0/saturation) * (outValue[i] - luma)
                     if outSat < 0:
-                        outValue[i] = ( clamp(outSat) - offset[i] ) / slope[i]
+                        outValue[i] = ( outSat - offset[i] ) / slope[i]
                     else:
-                        outValue[i] = ( pow( clamp(outSat), 1.0/power[i] ) - offset[i] ) / slope[i]
+                        outValue[i] = ( pow( outSat, 1.0/power[i] ) - offset[i] ) / slope[i]
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             # Copy the extra channels
-- 
2.43.0


From 14503ef9f0f76ea31b5b8603d789a410c7b7e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 08/54] fix: processing with a ColorCorrection node raised
 KeyError

---
 python/aces/clf/ASCCDL.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index ce86252..9e72d13 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -129,12 +129,12 @@ class ASCCDL(ProcessNode):
         if stride < 3:
             return values
 
-        # Base attributes
-        inBitDepth = self._attributes['inBitDepth']
-        outBitDepth = self._attributes['outBitDepth']
+        # Base attributes. ColorCorrection elements don't have these
+        inBitDepth = self.getAttribute('inBitDepth')
+        outBitDepth = self.getAttribute('outBitDepth')
 
         # Node attributes
-        style = ''
+        style = 'Fwd'
         if 'style' in self._attributes: style = self._attributes['style']
 
         if (not(getFeatureCompatibility() & featureSets["Autodesk"]) and
-- 
2.43.0


From afb2f70dd77111de41763171705cf109268d0d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 09/54] fix: ExposureContrast video and log styles failed,
 extra channels came from the first pixel

---
 python/aces/clf/ExtensionExposureContrast.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 9f0f882..0e4fe16 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import math
+
 from ProcessNode import *
 
 #
@@ -148,7 +150,7 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot),1.0/1.83)), contrast)
+                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,outValue[i]*pow(pow(2.0,exposure)/pivot, 1.0/1.83)), contrast)
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
@@ -156,14 +158,14 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    p = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
-                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - p)*contrast + p
+                    logPivot = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
+                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - logPivot)*contrast + logPivot
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             # Copy the extra channels
             for i in range(min(3, stride),stride):
-                outValue[i] = values[i]
+                outValue[i] = value[i]
 
             # Copy to the output array
             outValues[p*stride:(p+1)*stride] = outValue
-- 
2.43.0


From d061ed3af27592d0fcb8ca31cd7ee503bbfac646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 10/54] fix: ExposureContrast information printed the exposure
 as the contrast

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 0e4fe16..837de17 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -183,7 +183,7 @@ class ExposureContrast(ProcessNode):
         print( "\tPivot     : %s" % param[2] )
         '''
 
-        values = {"exposure":param[0], "contrast":param[0], "pivot":param[2]}
+        values = {"exposure":param[0], "contrast":param[1], "pivot":param[2]}
 
         for key, value in values.iteritems():
             print( "%20s : %15s : %15s" % ("Value", key, value) )
-- 
2.43.0


From 1e34bd3da29255a240a555cd906c9dd5f908f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 11/54] fix: Gamma moncurveRev switched to its linear part at
 the wrong value

---
 python/aces/clf/ExtensionGamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 6fe9372..b6a0b31 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -171,7 +171,7 @@ class Gamma(ProcessNode):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])
-                    if( outValue[i] <= (offset[i]/(gamma[i]-1)) ):
+                    if( outValue[i] <= pivot ):
                         outValue[i] = pow((gamma[i]-1.0)/offset[i], gamma[i]-1.0)*pow((1.0 + offset[i])/gamma[i], gamma[i])*outValue[i]
                     else:
                         outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])*(1.0 + offset[i]) - offset[i]
-- 
2.43.0


From bb5ee572bd5e93b7839bf0cf68710258eb33621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 12/54] fix: Gamma with integer parameters used integer
 divisions

---
 python/aces/clf/ExtensionGamma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index b6a0b31..9deed25 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -151,14 +151,14 @@ class Gamma(ProcessNode):
             elif style == 'basicRev':
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
-                    outValue[i] = pow(max(0.0, outValue[i]), 1/gamma[i])
+                    outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'moncurveFwd':
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    pivot = (offset[i]/(gamma[i]-1))
+                    pivot = (offset[i]/(gamma[i]-1.0))
                     if( outValue[i] <= pivot ):
                         outValue[i] = (gamma[i]-1.0)/offset[i]*pow(gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)), gamma[i])*outValue[i]
                     else:
-- 
2.43.0


From f498db2a579f41c092110bffca76fb2ebe12ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 13/54] fix: Log.process required the stride argument all other
 nodes default

---
 python/aces/clf/ExtensionLog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionLog.py b/python/aces/clf/ExtensionLog.py
index 6ae50b5..e7aeade 100644
--- a/python/aces/clf/ExtensionLog.py
+++ b/python/aces/clf/ExtensionLog.py
@@ -112,7 +112,7 @@ class Log(ProcessNode):
         return None
     # readChild
 
-    def process(self, values, stride, verbose=False):
+    def process(self, values, stride=0, verbose=False):
         # Base attributes
         inBitDepth = self._attributes['inBitDepth']
         outBitDepth = self._attributes['outBitDepth']
-- 
2.43.0


From 5d6fd6d44aa142039a62d625712c2675df313ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 14/54] fix: boolean attributes set to false acted as if they
 were true

---
 python/aces/clf/ExtensionGroup.py | 2 +-
 python/aces/clf/LUT1D.py          | 8 ++++----
 python/aces/clf/ProcessList.py    | 4 ++--
 python/aces/clf/ProcessNode.py    | 9 +++++++++
 python/aces/clf/Range.py          | 2 +-
 5 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 873413c..4d46cac 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -122,7 +122,7 @@ class Group(ProcessNode):
             processNode = self._processes[i]
             #print( "processing : %s" % result )
 
-            if processNode.getAttribute('bypass') == None:
+            if not processNode.getBypass():
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
                     print( "Group - %s (%s) - result value : %s" % 
diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index ce3b5f9..9937a8a 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -101,7 +101,7 @@ class LUT1D(ProcessNode):
         dimensions = [len(values)/dimension, dimension]
 
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
-        rawHalfs = not (self.getAttribute('rawHalfs') in [None, False])
+        rawHalfs = attributeIsTrue(self.getAttribute('rawHalfs'))
 
         # Replace any existing array
         if self._array != None:
@@ -129,7 +129,7 @@ class LUT1D(ProcessNode):
         child = None
         elementType = self.getElementType(element.tag)
         if elementType == 'Array':
-            rawHalfs = not (self.getAttribute('rawHalfs') in [None, False])
+            rawHalfs = attributeIsTrue(self.getAttribute('rawHalfs'))
 
             child = Array(rawHalfs=rawHalfs)
             child.read(element)
@@ -154,8 +154,8 @@ class LUT1D(ProcessNode):
         interpolation = ''
         if 'interpolation' in self._attributes: interpolation = self._attributes['interpolation']
 
-        rawHalfs = not (self.getAttribute('rawHalfs') in [None, False])
-        halfDomain = not (self.getAttribute('halfDomain') in [None, False])
+        rawHalfs = attributeIsTrue(self.getAttribute('rawHalfs'))
+        halfDomain = attributeIsTrue(self.getAttribute('halfDomain'))
         
         '''
         print( "interpolation  : %s" % interpolation )
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 485a487..f40b9be 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -354,7 +354,7 @@ class ProcessList:
             #print( "processing : %s" % result )
 
             # Process the current value using the ProcessNode
-            if (processNode.getAttribute('bypass') == None or
+            if (not processNode.getBypass() or
                 not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
@@ -363,7 +363,7 @@ class ProcessList:
                             " ".join(map(lambda x: "%3.6f" % x, result)),
                             type(result) ) )
 
-                    if (processNode.getAttribute('bypass') != None and
+                    if (processNode.getBypass() and
                         not(getFeatureCompatibility() & featureSets["Autodesk"])):
                         print( "%s (%s) - bypass ignored based on feature compatibility setting." % 
                             (processNode.getAttribute('name'), processNode.getNodeType()) )
diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index b0b1a28..e8419d4 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -122,6 +122,11 @@ def bitDepthSize(bitDepth):
 def bitDepthIsInteger(bitDepth):
     return bitDepth in [bitDepths["UINT8"], bitDepths["UINT10"], bitDepths["UINT12"], bitDepths["UINT16"]]
 
+# Boolean attributes may hold booleans, or text with any capitalization
+def attributeIsTrue(value):
+    return not (str(value).strip().lower() in ["none", "false", "0", ""])
+# attributeIsTrue
+
 def bitDepthIsFloatingPoint(bitDepth):
     return not bitDepth in [bitDepths["UINT8"], bitDepths["UINT10"], bitDepths["UINT12"], bitDepths["UINT16"]]
 
@@ -298,6 +303,10 @@ class ProcessNode():
     def getDynamicParam(self, name):
         return (name in self._dynamicParams)
 
+    # True if this node should be skipped when the Autodesk features are enabled
+    def getBypass(self):
+        return attributeIsTrue(self.getAttribute('bypass'))
+
     # Node values
     def getNodeType(self):
         return self._nodeType
diff --git a/python/aces/clf/Range.py b/python/aces/clf/Range.py
index 99e860a..857ed0a 100644
--- a/python/aces/clf/Range.py
+++ b/python/aces/clf/Range.py
@@ -109,7 +109,7 @@ class Range(ProcessNode):
         if 'style' in self._attributes: 
             clamp = (self._attributes['style'] == 'clamp')
         if 'defaultRange' in self._attributes: 
-            defaultRange = True
+            defaultRange = attributeIsTrue(self._attributes['defaultRange'])
 
         # Node parameters
         minInValue = None
-- 
2.43.0


From 03eb0421257134e7e48bbd1dba39a1338f3407f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 15/54] fix: Group bypassed nodes although the Autodesk
 features were disabled

---
 python/aces/clf/ExtensionGroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 4d46cac..d48c3f8 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -122,7 +122,8 @@ class Group(ProcessNode):
             processNode = self._processes[i]
             #print( "processing : %s" % result )
 
-            if not processNode.getBypass():
+            if (not processNode.getBypass() or
+                not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
                     print( "Group - %s (%s) - result value : %s" % 
-- 
2.43.0


From be588a2b07fc52a1da3a7c853a059d1c89c9d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 16/54] fix: bypassing the first or last node lost the bit
 depth conversion

---
 python/aces/clf/ExtensionGroup.py | 31 +++++++++++++++++--------------
 python/aces/clf/ProcessList.py    | 31 +++++++++++++++++--------------
 2 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index d48c3f8..3eeac2e 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -135,23 +135,26 @@ class Group(ProcessNode):
                         (processNode.getAttribute('name'), processNode.getNodeType()))
 
                 # Handle bit-depth mismatches
-                if i > 0 and i < (len(self._processes)-1):
-                    RangeClass = ProcessList.serializableClasses['Range']
+                inBitDepth = processNode.getInBitDepth()
+                outBitDepth = processNode.getOutBitDepth()
+                if i > 0:
                     inBitDepth = self._processes[i-1].getOutBitDepth()
+                if i < (len(self._processes)-1):
                     outBitDepth = self._processes[i+1].getInBitDepth()
 
-                    if inBitDepth != outBitDepth:
-                        if verbose:
-                            print( "%s (%s) - Adding a Range node to adapt bit depth %s to bit depth %s" % (
-                                processNode.getAttribute('name'), processNode.getNodeType(), inBitDepth, outBitDepth))
-
-                        RangeAdapter = RangeClass(inBitDepth, outBitDepth, "adapter", "adapter", style='noClamp')
-                        result = RangeAdapter.process(result, stride, verbose=verbose)
-                        if verbose:
-                            print( "%s (%s) - result value : %s, result type : %s" % 
-                                (RangeAdapter.getAttribute('name'), RangeAdapter.getNodeType(), 
-                                    " ".join(map(lambda x: "%3.6f" % x, result)),
-                                    type(result) ) )
+                if inBitDepth != outBitDepth:
+                    if verbose:
+                        print( "%s (%s) - Adding a Range node to adapt bit depth %s to bit depth %s" % (
+                            processNode.getAttribute('name'), processNode.getNodeType(), inBitDepth, outBitDepth))
+
+                    RangeClass = ProcessList.serializableClasses['Range']
+                    RangeAdapter = RangeClass(inBitDepth, outBitDepth, "adapter", "adapter", style='noClamp')
+                    result = RangeAdapter.process(result, stride, verbose=verbose)
+                    if verbose:
+                        print( "%s (%s) - result value : %s, result type : %s" % 
+                            (RangeAdapter.getAttribute('name'), RangeAdapter.getNodeType(), 
+                                " ".join(map(lambda x: "%3.6f" % x, result)),
+                                type(result) ) )
 
         return result
     # process
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index f40b9be..163fd05 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -375,23 +375,26 @@ class ProcessList:
                         (processNode.getAttribute('name'), processNode.getNodeType()))
 
                 # Handle bit-depth mismatches
-                if i > 0 and i < (len(self._processes)-1):
-                    RangeClass = ProcessList.serializableClasses['Range']
+                inBitDepth = processNode.getInBitDepth()
+                outBitDepth = processNode.getOutBitDepth()
+                if i > 0:
                     inBitDepth = self._processes[i-1].getOutBitDepth()
+                if i < (len(self._processes)-1):
                     outBitDepth = self._processes[i+1].getInBitDepth()
 
-                    if inBitDepth != outBitDepth:
-                        if verbose:
-                            print( "%s (%s) - Adding a Range node to adapt bit depth %s to bit depth %s" % (
-                                processNode.getAttribute('name'), processNode.getNodeType(), inBitDepth, outBitDepth))
-
-                        RangeAdapter = RangeClass(inBitDepth, outBitDepth, "adapter", "adapter", style='noClamp')
-                        result = RangeAdapter.process(result, verbose=verbose)
-                        if verbose:
-                            print( "%s (%s) - result value : %s, result type : %s" % 
-                                (RangeAdapter.getAttribute('name'), RangeAdapter.getNodeType(), 
-                                    " ".join(map(lambda x: "%3.6f" % x, result)),
-                                    type(result) ) )
+                if inBitDepth != outBitDepth:
+                    if verbose:
+                        print( "%s (%s) - Adding a Range node to adapt bit depth %s to bit depth %s" % (
+                            processNode.getAttribute('name'), processNode.getNodeType(), inBitDepth, outBitDepth))
+
+                    RangeClass = ProcessList.serializableClasses['Range']
+                    RangeAdapter = RangeClass(inBitDepth, outBitDepth, "adapter", "adapter", style='noClamp')
+                    result = RangeAdapter.process(result, verbose=verbose)
+                    if verbose:
+                        print( "%s (%s) - result value : %s, result type : %s" % 
+                            (RangeAdapter.getAttribute('name'), RangeAdapter.getNodeType(), 
+                                " ".join(map(lambda x: "%3.6f" % x, result)),
+                                type(result) ) )
 
         return result
     # process
-- 
2.43.0


From c23983dc1bfd71562510d0de44e4bb3c774e30f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 17/54] fix: reading a plain file hid errors of strict reading
 and read the list twice

---
 python/aces/clf/ProcessList.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 163fd05..96bff45 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -240,21 +240,18 @@ class ProcessList:
             try:
                 f = gzip.open(clfPath, 'rb')
                 tree = etree.parse(f)
-                root = tree.getroot()
-                self.read(root, strict)
                 f.close()
 
             # Read as normal XML otherwise
             except:
                 tree = etree.parse(clfPath)
-                root = tree.getroot()
-                self.read(root, strict)
 
         # Read as XML otherwise
         else:
             tree = etree.parse(clfPath)
-            root = tree.getroot()
-            self.read(root, strict)
+
+        root = tree.getroot()
+        self.read(root, strict)
     # readFile
 
     # Attributes
-- 
2.43.0


From 5800133cbf853a04fcbbf27a9e1501f31548d04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 18/54] fix: writing a list with non-ASCII text failed after
 truncating the file

---
 python/aces/clf/ProcessList.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 96bff45..f74c32a 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -70,7 +70,7 @@ class ProcessList:
         documentString = etree.tostring(document.getroot(), encoding='UTF-8')
             
         from xml.dom import minidom
-        prettyString = minidom.parseString(documentString).toprettyxml()
+        prettyString = minidom.parseString(documentString).toprettyxml(encoding='UTF-8')
        
         return prettyString
     #xmlPrettify
-- 
2.43.0


From ac2057c9296ee78e7bbbded9965b1856f6d91339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 19/54] fix: strict reading and the feature checks did not
 reach into Groups

---
 python/aces/clf/ExtensionGroup.py | 16 ++++++++++++++--
 python/aces/clf/ProcessList.py    | 27 ++++++++++++++++-----------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 3eeac2e..3c09732 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -62,6 +62,7 @@ class Group(ProcessNode):
         "%s - Initialize the standard class variables" % 'Group'
         ProcessNode.__init__(self, 'Group', inBitDepth, outBitDepth, id, name)
         self._processes = []
+        self._strict = False
 
         # Remove in and out bit depth attributes
         # XXX Ignoring for now. Should be revisited when discussed by the project committee
@@ -94,6 +95,11 @@ class Group(ProcessNode):
         return node
     # write
 
+    def read(self, element, strict=False):
+        self._strict = strict
+        ProcessNode.read(self, element, strict)
+    # read
+
     def readChild(self, child):
         elementType = self.getElementType(child.tag)
         elementClass = ProcessList.getClass(elementType)
@@ -101,15 +107,21 @@ class Group(ProcessNode):
 
         if elementClass != None:
             element = elementClass()
-            element.read(child)
 
             processNodeClass = ProcessList.getClass("ProcessNode")
             if issubclass(elementClass, processNodeClass):
+                element.read(child, strict=self._strict)
+                ProcessList.checkCompatibility(elementType, self._strict)
                 self.addProcess( element )
             else:
+                element.read(child)
                 self.addElement( element )
         else:
-            print( "Group::read - Ignoring element : %s" % child.tag)
+            msg = "Ignoring element : %s" % child.tag
+            if self._strict:
+                raise Errors.UnknownProcessNodeError(msg)
+            else:
+                print( "Group::read - %s" % msg )
 
         return None
     # readChild
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index f74c32a..7e9d941 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -184,6 +184,21 @@ class ProcessList:
         return elementType
     # getElementType
 
+    # Check that a given ProcessNode class is compatible with 
+    # the current feature set
+    @staticmethod
+    def checkCompatibility(elementType, strict=False):
+        if ( (elementType in ["ExposureContrast", "Gamma", "Log", "Reference"] and
+            not (getFeatureCompatibility() & featureSets["Autodesk"])) or
+            (elementType in ["Group"] and
+                not (getFeatureCompatibility() & featureSets["Duiker Research"])) ):
+            msg = "Unsupported feature : ProcessNode type %s" % elementType
+            if strict:
+                raise Errors.UnsupportedExtensionError(msg)
+            else:
+                print( "ProcessList::read - %s" % msg )
+    # checkCompatibility
+
     def read(self, element, strict=False):
         root = element
 
@@ -207,17 +222,7 @@ class ProcessList:
                 if issubclass(elementClass, processNodeClass):
                     element.read(child, strict=strict)
 
-                    # Check that a given ProcessNode class is compatible with 
-                    # the current feature set
-                    if ( (elementType in ["ExposureContrast", "Gamma", "Log", "Reference"] and
-                        not (getFeatureCompatibility() & featureSets["Autodesk"])) or
-                        (elementType in ["Group"] and
-                            not (getFeatureCompatibility() & featureSets["Duiker Research"])) ):
-                        msg = "Unsupported feature : ProcessNode type %s" % elementType
-                        if strict:
-                            raise Errors.UnsupportedExtensionError(msg)
-                        else:
-                            print( "ProcessList::read - %s" % msg )
+                    self.checkCompatibility(elementType, strict)
 
                     self.addProcess( element )
 
-- 
2.43.0


From ba832cc0c0d020bdc941b39c3dc57425e2f31b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 20/54] fix: self-contained writing kept references in groups
 and referenced files, and failed on unresolved ones

---
 python/aces/clf/ExtensionGroup.py     | 10 ++++++----
 python/aces/clf/ExtensionReference.py |  5 ++++-
 python/aces/clf/ProcessList.py        |  3 +--
 python/aces/clf/ProcessNode.py        |  4 ++++
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 3c09732..c60044e 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -81,15 +81,17 @@ class Group(ProcessNode):
                 return processNode
         return None
 
+    # Choose whether to write Reference nodes or nodes referred to
+    def setWriteReferencedNodes(self, writeReferencedNodes):
+        for process in self._processes:
+            process.setWriteReferencedNodes(writeReferencedNodes)
+
     # Read / Write
-    def write(self, tree, writeSelfContained=False):
+    def write(self, tree):
         node = ProcessNode.write(self, tree)
 
         # Add ProcessNode elements
         for process in self._processes:
-            # Choose whether to write Reference node or nodes referred to
-            if isinstance(process, ProcessList.getClass("Reference")):
-                process.setWriteReferencedNodes(writeSelfContained)
             process.write(node)
         
         return node
diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 33ea651..6c68a01 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -100,12 +100,15 @@ class Reference(ProcessNode):
 
     def setWriteReferencedNodes(self, writeReferencedNodes):
         self._writeReferencedNodes = writeReferencedNodes
+        if self._processList != None:
+            for process in self._processList.getProcesses():
+                process.setWriteReferencedNodes(writeReferencedNodes)
     def getWriteReferencedNodes(self):
         return self._writeReferencedNodes
 
     # Read / Write
     def write(self, tree):
-        if self._writeReferencedNodes:
+        if self._writeReferencedNodes and self._processList != None:
             processes = self._processList.getProcesses()
             for process in processes:
                 process.write(tree)
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 7e9d941..b06a6c8 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -138,8 +138,7 @@ class ProcessList:
         # Add ProcessNode elements
         for process in self._processes:
             # Choose whether to write Reference node or nodes referred to
-            if isinstance(process, self.getClass("Reference")):
-                process.setWriteReferencedNodes(writeSelfContained)
+            process.setWriteReferencedNodes(writeSelfContained)
             process.write(tree)
         
         document = etree.ElementTree(tree)
diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index e8419d4..df4117a 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -307,6 +307,10 @@ class ProcessNode():
     def getBypass(self):
         return attributeIsTrue(self.getAttribute('bypass'))
 
+    # Only meaningful for nodes that refer to, or hold, other nodes
+    def setWriteReferencedNodes(self, writeReferencedNodes):
+        return None
+
     # Node values
     def getNodeType(self):
         return self._nodeType
-- 
2.43.0


From c230080e5b9a1c5e0ebf82ac20112e8213e0d5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 21/54] fix: self-contained writing lost the bypass of
 references

---
 python/aces/clf/ExtensionReference.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 6c68a01..61f0e18 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -110,8 +110,14 @@ class Reference(ProcessNode):
     def write(self, tree):
         if self._writeReferencedNodes and self._processList != None:
             processes = self._processList.getProcesses()
+            first = len(tree)
             for process in processes:
                 process.write(tree)
+
+            # Nodes take over the bypass of the reference they replace
+            if self.getBypass():
+                for element in tree[first:]:
+                    element.set('bypass', "%s" % self.getAttribute('bypass'))
             return tree
         else:
             node = ProcessNode.write(self, tree)
-- 
2.43.0


From 537e52027cafe2a6734c0bd185ff75375079b726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 22/54] fix: the namespace of a process list was lost on
 reading

---
 python/aces/clf/ProcessList.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index b06a6c8..5541c90 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -205,6 +205,10 @@ class ProcessList:
         for key, value in root.attrib.iteritems():
             self.setAttribute(key, value)
 
+        # The parser moves the namespace to the tag
+        if root.tag.startswith('{'):
+            self.setNamespace(root.tag[1:root.tag.find('}')])
+
         # Read child elements
         for child in root:
             # Find the Python class associated with this XML element tag
-- 
2.43.0


From 347becae002ebb772f22be06e365972c4f14dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 23/54] fix: blank lines in .spi1d and .spi3d files made
 reading fail

---
 python/aces/lutFormats/LutSPI.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index 948e3ed..ac30d37 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -170,6 +170,10 @@ class LutFormatSPI(LutFormat.LutFormat):
             #print( "line : %s" % line )
             tokens = line.split()
 
+            # Skip blank lines
+            if not tokens:
+                continue
+
             if tokens[0] == "Version":
                 version = int(tokens[1])
                 if version != 1:
@@ -231,8 +235,9 @@ class LutFormatSPI(LutFormat.LutFormat):
     # Or implement one. That would be slow in Python (or C, or OpenCL) though
     @staticmethod
     def readSPI3D(lutPath, inverse=False, interpolation='linear'):
+        # Blank lines carry no data
         with open(lutPath) as f:
-            lines = f.read().splitlines()
+            lines = [line for line in f.read().splitlines() if line.strip()]
 
         # Translate between different names for the same interpolation if necessary
         ocioToCLFInterpolation = {'linear':'trilinear'}
-- 
2.43.0


From ec11c963320acbb73015bd8b54cdb483cfdd431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 24/54] fix: half-domain inverse of a LUT ignored the input
 range and extrapolated

---
 python/aces/lutFormats/Sampling.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index c189838..ce42f2e 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -223,15 +223,22 @@ def generateLUT1DInverseHalfDomain(resolution, samples, minInputValue, maxInputV
                 sampleIndexLow = lutIndexLow*channels + channel
                 sampleIndexHigh = lutIndexHigh*channels + channel
 
-                if lutIndexLow == lutIndexHigh:
+                if samples[sampleIndexLow] == samples[sampleIndexHigh]:
                     lutInterp = 0.0
                 else:
                     lutInterp = (inputValue - samples[sampleIndexLow])/(
                         samples[sampleIndexHigh] - samples[sampleIndexLow])
 
+                # Hold the ends of the LUT's output range
+                lutInterp = max(0.0, min(1.0, lutInterp))
+
                 # Find the output value
                 outputInterpolated = (lutInterp + lutIndexLow)/(inputResolution-1)
 
+                # Expand from [0,1] to [minIn, maxIn]
+                outputInterpolated = outputInterpolated*(
+                    maxInputValue - minInputValue) + minInputValue
+
             inverseSample[channel] = outputInterpolated
 
         inverseSamples[inverseLutIndex*channels:(inverseLutIndex+1)*channels] = inverseSample
-- 
2.43.0


From b8621d538db432cb99054009e6e330918a086fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 25/54] fix: resampled inverse of a LUT divided by zero on flat
 segments and extrapolated

---
 python/aces/lutFormats/Sampling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index ce42f2e..a843473 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -146,12 +146,16 @@ def generateLUT1DInverseResampled(resolution, samples, minInputValue, maxInputVa
             sampleIndexLow = lutIndexLow*channels + channel
             sampleIndexHigh = lutIndexHigh*channels + channel
 
-            if lutIndexLow == lutIndexHigh:
+            if samples[sampleIndexLow] == samples[sampleIndexHigh]:
                 lutInterp = 0.0
             else:
                 lutInterp = (rangedValue - samples[sampleIndexLow])/(
                     samples[sampleIndexHigh] - samples[sampleIndexLow])
 
+            # Hold the ends of the LUT's output range
+            lutInterp = max(0.0, min(1.0, lutInterp))
+
+
             # Find the output value
             outputInterpolated = (lutInterp + lutIndexLow)/(inputResolution-1)
 
-- 
2.43.0


From f8633bec16c912d976742f59d74acc117f7a7080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 26/54] fix: .csp reading depended on blank lines and required
 metadata, mixed up non-cubic lattices

---
 python/aces/lutFormats/LutCSP.py | 38 +++++++++++---------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 7d45565..9577f1a 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -244,8 +244,10 @@ class LutFormatCSP(LutFormat.LutFormat):
     # Or implement one. That would be slow in Python (or C, or OpenCL) though
     @staticmethod
     def readCSP(lutPath, inverse=False, interpolation='linear'):
+        # Blank lines and indentation carry no data
         with open(lutPath) as f:
-            lines = f.read().splitlines()
+            lines = [line.strip() for line in f.read().splitlines()]
+        lines = [line for line in lines if line]
 
         resolution = []
         samples = []
@@ -258,28 +260,18 @@ class LutFormatCSP(LutFormat.LutFormat):
             format = lines[1].split()[0]
 
             if format in ["1D", "3D"]:
-                # Find the first line of metadata
-                metaStart = 2
-                while lines[metaStart].rstrip() != "BEGIN METADATA":
-                    metaStart += 1
-                metaStart += 1
-
+                # Skip the metadata section, which is optional
+                dataStart = 2
                 metadata = ""
-                dataStart = metaStart
-                for line in lines[metaStart:]:
+                if lines[dataStart] == "BEGIN METADATA":
+                    dataStart += 1
+                    while lines[dataStart] != "END METADATA":
+                        metadata += lines[dataStart]
+                        #print( "metadata line : %s" % lines[dataStart] )
+                        dataStart += 1
                     dataStart += 1
-                    if line.rstrip() == "END METADATA":
-                        break
-                    else:
-                        metadata += (line.rstrip())
-                        #print( "metadata line : %s" % line.rstrip() )
 
                 #print( "metadata : %s" % metadata)
-                dataStart += 1
-                
-                while lines[dataStart].rstrip() == '':
-                    #print( "blank line")
-                    dataStart += 1
 
                 #print( "Prelut data starts on line : %d" % dataStart )
 
@@ -309,11 +301,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                 #
                 # Read LUT data
                 #
-                dataStart = dataStart+10
-
-                while lines[dataStart].rstrip() == '':
-                    #print( "blank line")
-                    dataStart += 1
+                dataStart = dataStart+9
 
                 resolution = map(int, lines[dataStart].split())
                 dataStart += 1
@@ -334,7 +322,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                         indexB = cspIndex/(resolution[0]*resolution[1])
 
                         # Convert from LUT index to sample number, CLF-style
-                        clfIndex = (indexR*resolution[0] + indexG)*resolution[1] + indexB
+                        clfIndex = (indexR*resolution[1] + indexG)*resolution[2] + indexB
                         clfIndex *= 3
 
                         # Convert from text to float
-- 
2.43.0


From 861bef15c16b35dcb40d117c4881ddb83b735541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 27/54] fix: .csp preluts with unequal lengths or ranges
 failed, two-point preluts lost their output values

---
 python/aces/lutFormats/LutCSP.py | 61 +++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 9577f1a..cab0f9b 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -175,27 +175,38 @@ class LutFormatCSP(LutFormat.LutFormat):
         if inputResolution > 2:
             outputResolution *= 2
 
-        # Find the minimum and maximum input
-        # XXX
-        # We take the min and max of all three preluts because the Range node
-        # only takes single value, not RGB triples. If the prelut ranges are 
-        # very different, this could introduce some artifacting
-        minInputValue = min(prelutR[0][0], prelutG[0][0], prelutB[0][0])
-        maxInputValue = max(prelutR[0][-1], prelutG[0][-1], prelutB[0][-1])
-
-        #print( inputResolution, minInputValue, maxInputValue )
-
-        # Create a Range node to normalize data from that range [min, max]
-        rangepn = clf.Range(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "prelut_range", "prelut_range")
-        rangepn.setMinInValue(minInputValue)
-        rangepn.setMaxInValue(maxInputValue)
-        rangepn.setMinOutValue(0.0)
-        rangepn.setMaxOutValue(1.0)
-
-        prelutpns.append(rangepn)
+        # Find the minimum and maximum input of each channel
+        minInputValues = [cspPrelut[0][0] for cspPrelut in cspPreluts]
+        maxInputValues = [cspPrelut[0][-1] for cspPrelut in cspPreluts]
+
+        #print( inputResolution, minInputValues, maxInputValues )
+
+        if len(set(minInputValues)) == 1 and len(set(maxInputValues)) == 1:
+            # Create a Range node to normalize data from that range [min, max]
+            rangepn = clf.Range(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "prelut_range", "prelut_range")
+            rangepn.setMinInValue(minInputValues[0])
+            rangepn.setMaxInValue(maxInputValues[0])
+            rangepn.setMinOutValue(0.0)
+            rangepn.setMaxOutValue(1.0)
+
+            prelutpns.append(rangepn)
+        else:
+            # The Range node only takes single values, not RGB triples, so use
+            # a Matrix node to normalize each channel. The LUT that follows
+            # limits the values.
+            matrix = [0.0]*12
+            for channel in range(3):
+                scale = 1.0/(maxInputValues[channel] - minInputValues[channel])
+                matrix[channel*4 + channel] = scale
+                matrix[channel*4 + 3] = -minInputValues[channel]*scale
+
+            matrixpn = clf.Matrix(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "prelut_matrix", "prelut_matrix")
+            matrixpn.setMatrix([3, 4, 3], matrix)
+
+            prelutpns.append(matrixpn)
 
         # If the prelut only affects the range, skip generating a lut to represent it
-        if inputResolution > 2:
+        if inputResolution > 2 or [cspPrelut[1] for cspPrelut in cspPreluts] != [[0.0, 1.0]]*3:
             # Generate 1d LUT by running values through the
             # - inverse normalization
             # - the cspprelut
@@ -205,21 +216,23 @@ class LutFormatCSP(LutFormat.LutFormat):
                 # Normalized LUT input
                 inputValue = float(i)/(outputResolution-1)
 
-                # Invert the normalization
-                rangedValue = inputValue*(maxInputValue - minInputValue) + minInputValue
-
                 sample = [0.0, 0.0, 0.0]
 
                 # For each channel
                 for channel in range(len(cspPreluts)):
+                    # Invert the normalization
+                    rangedValue = inputValue*(
+                        maxInputValues[channel] - minInputValues[channel]) + minInputValues[channel]
+
                     # Find the location of the de-normalized value in the prelut
-                    for prelutIndex in range(inputResolution):
+                    prelutResolution = len(cspPreluts[channel][0])
+                    for prelutIndex in range(1, prelutResolution):
                         if cspPreluts[channel][0][prelutIndex] > rangedValue:
                             break
 
                     # Get the interpolation value
                     prelutIndexLow = max(0, prelutIndex-1)
-                    prelutIndexHigh = min(inputResolution-1, prelutIndex)
+                    prelutIndexHigh = min(prelutResolution-1, prelutIndex)
                     prelutInterp = (rangedValue - cspPreluts[channel][0][prelutIndexLow])/(
                         cspPreluts[channel][0][prelutIndexHigh] - cspPreluts[channel][0][prelutIndexLow])
 
-- 
2.43.0


From 2878df9d6fca142a3279bf9366c6d4e1dbcfc127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 28/54] fix: writing a .csp 1D/3D LUT without an input shaper
 failed

---
 python/aces/lutFormats/LutCSP.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index cab0f9b..4429147 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -537,6 +537,13 @@ class LutFormatCSP(LutFormat.LutFormat):
             fp.write('\n')
 
             for c in range(3):
+                # Without an input shaper, the prelut only holds the range
+                if not samples1dIn:
+                    fp.write('2\n')
+                    fp.write('%f %f\n' % (inputMin, inputMax))
+                    fp.write('0.0 1.0\n')
+                    continue
+
                 fp.write('%d\n' % lutResolution1dIn)
 
                 for s in range(lutResolution1dIn):
-- 
2.43.0


From d8db54d1843fc473d98646671b153041baa3ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 29/54] fix: the output shaper of 1D/3D/1D LUTs was sampled
 from the input shaper

---
 python/aces/lutFormats/Sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index a843473..c5f2e00 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -525,7 +525,7 @@ def sample1D3D1D(processList,
         for lutIndex in range(lutResolution1dOut):
             sampleValue = float(lutIndex)/(lutResolution1dOut-1)
 
-            lutValue = shaperInPLInverse.process([sampleValue]*3)
+            lutValue = shaperOutPLInverse.process([sampleValue]*3)
 
             samples1dOut[lutIndex*3:(lutIndex+1)*3] = lutValue
     else:
-- 
2.43.0


From 30e2b4bd4e8d5f9f7368b84a052dfe8e0213fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 30/54] fix: 1D/3D/1D .clf files held the inverse of the input
 shaper

---
 python/aces/lutFormats/LutCLF.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/python/aces/lutFormats/LutCLF.py b/python/aces/lutFormats/LutCLF.py
index f14c496..34faeee 100644
--- a/python/aces/lutFormats/LutCLF.py
+++ b/python/aces/lutFormats/LutCLF.py
@@ -132,16 +132,17 @@ class LutFormatCLF(LutFormat.LutFormat):
 
         # Create the input shaper
         if samples1dIn:
-            if inversesUseIndexMaps:
-                #print( "Generating inverse of 1D LUT using Index Maps")
-                lutpnInverses = Sampling.generateLUT1DInverseIndexMap([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax)
-            elif inversesUseHalfDomain:
-                #print( "Generating full half-domain inverse of 1D LUT")
-                lutpnInverses = Sampling.generateLUT1DInverseHalfDomain([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax, rawHalfs=True)
-            else:
-                #print( "Generating resampled inverse of 1D LUT")
-                lutpnInverses = Sampling.generateLUT1DInverseResampled([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax)            
-            lutpns.extend(lutpnInverses)
+            # Normalize values from the range that the shaper was sampled over
+            rangepn = clf.Range(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "shaper_range", "shaper_range")
+            rangepn.setMinInValue(inputMin)
+            rangepn.setMaxInValue(inputMax)
+            rangepn.setMinOutValue(0.0)
+            rangepn.setMaxOutValue(1.0)
+            lutpns.append(rangepn)
+
+            lutpn = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "shaper_lut1d", "shaper_lut1d")
+            lutpn.setArray(3, samples1dIn)
+            lutpns.append(lutpn)
 
         # Create the 3D LUT
         clfSamples = [0.0]*(lutResolution3d[0]*lutResolution3d[1]*lutResolution3d[2])*3
-- 
2.43.0


From 041cca20e607c34d9996627e7008787c1126fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 31/54] fix: .ctl 1D LUTs held the red values in every channel

---
 python/aces/lutFormats/LutCTL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutCTL.py b/python/aces/lutFormats/LutCTL.py
index 62dbfbd..1358d85 100644
--- a/python/aces/lutFormats/LutCTL.py
+++ b/python/aces/lutFormats/LutCTL.py
@@ -176,7 +176,7 @@ class LutFormatCTL(LutFormat.LutFormat):
               for j in range(components):
                 fp.write('const float lut%d[] = {\n' % j)
                 for i in range(0, entries):
-                    fp.write('%s' % data[i * channels])
+                    fp.write('%s' % data[i * channels + j])
                     if i != (entries-1):
                       fp.write(',')
                     fp.write('\n')
-- 
2.43.0


From 691026f2fe1a19d0e960f158cfebd70de6c2b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 32/54] fix: convertCLFtoLUT ignored the lutResolution3d option

---
 python/aces/convertCLFtoLUT.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/aces/convertCLFtoLUT.py b/python/aces/convertCLFtoLUT.py
index 7627e64..d5ef078 100644
--- a/python/aces/convertCLFtoLUT.py
+++ b/python/aces/convertCLFtoLUT.py
@@ -193,10 +193,10 @@ def main():
     if options.lutResolution1d3d1d is not None:
         #print( options.shaperIn )
         shaperInLutResolution = int(options.lutResolution1d3d1d[0][0])
-        lutResolution3d = int(options.lutResolution1d3d1d[0][1])
+        shaperLutResolution3d = int(options.lutResolution1d3d1d[0][1])
         shaperOutLutResolution = int(options.lutResolution1d3d1d[0][2])
     else:
-        (shaperInLutResolution, lutResolution3d, shaperOutLutResolution) = (1024, 33, 2)
+        (shaperInLutResolution, shaperLutResolution3d, shaperOutLutResolution) = (1024, 33, 2)
 
     # Figure out the data format
     lutDataFormat = lutFormats.LUTDATAFORMAT_1D
@@ -222,7 +222,7 @@ def main():
     print( "%25s : %s" % ("data format", lutDataFormat))
     print( "%25s : %s" % ("1D lut resolution", lutResolution1d))
     print( "%25s : %s" % ("3D lut resolution", lutResolution3d))
-    print( "%25s : %s" % ("1D/3D/1D lut resolution", "%s, %s, %s" % (shaperInLutResolution, lutResolution3d, shaperOutLutResolution)))
+    print( "%25s : %s" % ("1D/3D/1D lut resolution", "%s, %s, %s" % (shaperInLutResolution, shaperLutResolution3d, shaperOutLutResolution)))
     print( "%25s : %s" % ("min input value", inputMinValue))
     print( "%25s : %s" % ("max input value", inputMaxValue))
     print( "%25s : %s" % ("shaper in", "%s, %s, %s" % (shaperInType, shaperInMin, shaperInMax)))
@@ -238,7 +238,7 @@ def main():
                         lutDataFormat,
                         lutResolution1d,
                         lutResolution3d,
-                        [shaperInLutResolution, lutResolution3d, shaperOutLutResolution],
+                        [shaperInLutResolution, shaperLutResolution3d, shaperOutLutResolution],
                         inputMinValue,
                         inputMaxValue,
                         [shaperInType, shaperInMin, shaperInMax],
-- 
2.43.0


From 3e82ac8d80d2f54a91ec0f388a46989c1b978384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 33/54] fix: single-threaded image filtering only processed row
 5

---
 python/aces/filterImageWithCLF.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index e79cceb..ba61501 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -585,9 +585,7 @@ def filterImageWithCLF(inputPath,
     else:
         print( "Filtering image - single threaded" )
 
-        #for j in range(height):
-        j = 5
-        if True:
+        for j in range(height):
             # Using filterRow_stride instead of filterRow_pixel
             # Processing a full row is ~10% faster than processing individual pixels
             filterRow_stride(j,
-- 
2.43.0


From 2c034d6f83fdf9012007e6927939f88fd27e1069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 34/54] fix: filtering an image of height 1 divided by zero

---
 python/aces/filterImageWithCLF.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index ba61501..774bf50 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -344,8 +344,8 @@ def filterRow_pixel(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     for i in range(width):
         index = (row*width + i)*channels
@@ -388,8 +388,8 @@ def filterRow_stride(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     index = (row*width)*channels
 
@@ -437,8 +437,8 @@ def filterRow_parallel(row,
     if verbose:
         print( "process %d - row %d" % (os.getpid(), row) )
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     # Copy a single row
     ovalue = pixels
-- 
2.43.0


From 6523043dd75690eab965d2690ef1dc1b41f7adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 35/54] fix: image filtering failed on array pixels and on
 unreadable images

---
 python/aces/filterImageWithCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 774bf50..2cc1a52 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -194,7 +194,7 @@ def readPixelArray(inputPath,
             print( "Unpacking half-float values" )
             sourceData = oiioFloatPixelsToNPHalfArray(width, height, channels, sourceData)
     else:
-        (sourceData, bitDepth, width, height, channels, metadata) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
+        (sourceData, bitDepth, width, height, channels, metadata, channelnames) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
 
     return (sourceData, bitDepth, width, height, channels, metadata, channelnames)
 # readPixelArray
@@ -492,7 +492,7 @@ def filterImageWithCLF(inputPath,
     t0 = timeit.default_timer()
 
     pixels, inBitDepth, width, height, channels, metadata, channelnames = readPixelArray(inputPath)
-    if pixels == None:
+    if pixels is None:
         print( "\nImage %s could not be opened. Filtering aborted.\n" % inputPath )
         return
     #print( len(pixels), bitDepth, width, height, channels )
-- 
2.43.0


From cc2df51f3f095cab18fec53d32b323651b020c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 36/54] fix: integer images were truncated and wrapped around
 instead of rounded and limited

---
 python/aces/filterImageWithCLF.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 2cc1a52..12deb7b 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -199,6 +199,13 @@ def readPixelArray(inputPath,
     return (sourceData, bitDepth, width, height, channels, metadata, channelnames)
 # readPixelArray
 
+# Round a float to the nearest integer in [0, maxValue]. NaNs become 0.
+def floatToInt(value, maxValue):
+    if not value > 0.0:
+        return 0
+    return int(min(float(value), maxValue) + 0.5)
+# floatToInt
+
 #
 # Write an image
 #
@@ -229,7 +236,7 @@ def writePixelArray(outputPath,
     if type == oiio.UINT8:
         pixels8 = np.zeros(width*height*channels, dtype=np.uint8)
         for i in range(len(pixels)):
-            pixels8[i] = int(pixels[i])
+            pixels8[i] = floatToInt(pixels[i], 255)
         pixels = pixels8
 
     # Convert float values to 16-bit unsigned integer
@@ -243,11 +250,12 @@ def writePixelArray(outputPath,
             bitShift = 6
         elif bitDepth == clf.bitDepths["UINT12"]:
             bitShift = 4
+        maxValue = 65535 >> bitShift
 
         pixels16 = np.zeros(width*height*channels, dtype=np.uint16)
         # Cast to 16 bit and reset integer bit-depth if necessary
         for i in range(len(pixels)):
-            pixels16[i] = int(pixels[i]) << bitShift
+            pixels16[i] = floatToInt(pixels[i], maxValue) << bitShift
         pixels = pixels16
 
     # OIIO doesn't store half-float values directly, so this will
-- 
2.43.0


From d56df17230b72852097ed26fe978b7c2b11dfa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 37/54] fix: writing float images with a bits per sample
 attribute failed

---
 python/aces/filterImageWithCLF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 12deb7b..858ed81 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -279,7 +279,9 @@ def writePixelArray(outputPath,
         clf.bitDepths["UINT8"] : 8,
         clf.bitDepths["UINT10"] : 10,
         clf.bitDepths["UINT12"] : 12,
-        clf.bitDepths["UINT16"] : 16
+        clf.bitDepths["UINT16"] : 16,
+        clf.bitDepths["FLOAT16"] : 16,
+        clf.bitDepths["FLOAT32"] : 32
     }
 
     # Add the metadata tags
-- 
2.43.0


From 3fff2309a03871a8a6780714c4a9812d1cc1c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 38/54] fix: OCIO matrices with an offset were converted to
 wrong 3x4 arrays, 4x4 ones lost alpha terms and offset

---
 python/aces/convertOCIOtoCLF.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 4c6dd2d..ad656f3 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -79,15 +79,18 @@ def convertMatrixToProcessNode(matrix, offset, direction):
     if direction == 'forward':
         # Check to see if this is really a 3x3 matrix hidden inside a 4x4
         if( len(matrix) == 16 and 
-            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11 == 0.0] and
-                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14 == 0.0] and matrix[15 == 1.0]) ):
+            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11] == 0.0 and
+                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14] == 0.0 and matrix[15] == 1.0) ):
 
             # Add offset into matrix if possible
             if( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 ):
+                matrix34 = [0.0]*12
+                matrix34[0:4] = list(matrix[0:3]) + [offset[0]]
+                matrix34[4:8] = list(matrix[4:7]) + [offset[1]]
+                matrix34[8:12] = list(matrix[8:11]) + [offset[2]]
+
                 resolution = [3, 4, 3]
-                matrix[3] = offset[0]
-                matrix[7] = offset[1]
-                matrix[11] = offset[2]
+                matrix = matrix34
                 # CLF ignores the alpha offset
 
             # Or just copy into a smaller matrix
@@ -100,6 +103,16 @@ def convertMatrixToProcessNode(matrix, offset, direction):
                 resolution = [3, 3, 3]
                 matrix = matrix33
 
+        # Add offset into a true 4x4 matrix
+        elif len(matrix) == 16 and list(offset) != [0.0]*4:
+            matrix45 = []
+            for row in range(4):
+                matrix45 += list(matrix[row*4:row*4 + 4]) + [offset[row]]
+
+            resolution = [4, 5, 4]
+            matrix = matrix45
+
+
         mpn1 = clf.Matrix(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "matrix1", "matrix1")
         mpn1.setMatrix(resolution, matrix)
     else:
-- 
2.43.0


From c5b99049a9ba282d2d320acf69a94f599e91e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 39/54] fix: OCIO conversion failed on LUT files that can not
 be read

---
 python/aces/convertOCIOtoCLF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index ad656f3..bcb6ced 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -169,7 +169,8 @@ def convertTransformsToProcessNodes( ocioTransform,
             inversesUseHalfDomain=inversesUseHalfDomain,
             returnProcessNodes=True)
         #print( "Created %d CLF process nodes" % len(lutpns) )
-        pns.extend( lutpns )
+        if lutpns:
+            pns.extend( lutpns )
 
     elif isinstance(ocioTransform, OCIO.MatrixTransform):
         matrix = ocioTransform.getMatrix()
-- 
2.43.0


From 98269d950d5046b05aa4ba382f1f45d15cfae7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 40/54] fix: the interpolation asked for was ignored when
 reading .csp LUTs

---
 python/aces/lutFormats/LutCSP.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 4429147..376eb64 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -386,11 +386,16 @@ class LutFormatCSP(LutFormat.LutFormat):
                     lutpns.append(prelutpn)
 
         if format == "3D":
-            lutpn = clf.LUT3D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut3d", "lut3d")
+            # Translate between different names for the same interpolation if necessary
+            ocioToCLFInterpolation = {'linear':'trilinear'}
+            if interpolation in ocioToCLFInterpolation:
+                interpolation = ocioToCLFInterpolation[interpolation]
+
+            lutpn = clf.LUT3D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut3d", "lut3d", interpolation=interpolation)
             lutpn.setArray(resolution, samples)
             lutpns.append(lutpn)
         elif format == "1D":
-            lutpn = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut1d", "lut1d")
+            lutpn = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut1d", "lut1d", interpolation=interpolation)
             lutpn.setArray(3, samples)
             lutpns.append(lutpn)
 
-- 
2.43.0


From ed5881536eb0355dbdee37a06fb15a209f357ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:54 +0000
Subject: [PATCH 41/54] fix: Reference.setPaths changed the transform but not
 the paths written or printed

---
 python/aces/clf/ExtensionReference.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 61f0e18..32b0911 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -91,6 +91,13 @@ class Reference(ProcessNode):
     # __init__
 
     def setPaths(self, path='', basePath='', alias=''):
+        # The paths are written, and printed, from the attributes
+        for key, value in [('alias', alias), ('path', path), ('basePath', basePath)]:
+            if value != '':
+                self._attributes[key] = value
+            elif key in self._attributes:
+                del self._attributes[key]
+
         self._resolvedPath = resolvePath(path, basePath, alias)
         if self._resolvedPath != None and os.path.exists(self._resolvedPath):
             self._processList = ProcessList.ProcessList(self._resolvedPath)
-- 
2.43.0


From fde910cb3cedc3417e39e706d4e69739ef86e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 42/54] fix: LUT1D wrote its values by the rawHalfs attribute
 of the time they were set

---
 python/aces/clf/LUT1D.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 9937a8a..c2cf322 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -125,6 +125,15 @@ class LUT1D(ProcessNode):
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
+    # Read / Write
+    def write(self, tree):
+        # Encode the values the way the current attributes say they are
+        if self._array != None:
+            self._array.setRawHalfs(attributeIsTrue(self.getAttribute('rawHalfs')))
+
+        return ProcessNode.write(self, tree)
+    # write
+
     def readChild(self, element):
         child = None
         elementType = self.getElementType(element.tag)
-- 
2.43.0


From c17f56663519cdd79501c7b92c3e811d4a9ddae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 43/54] fix: information printing truncated fractional values
 of integer depth arrays

---
 python/aces/clf/Array.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index a7f807c..05bd8c2 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -265,7 +265,7 @@ class Array:
         if rows > 10:
             for n in (range(3)):
                 sample = self._values[n*columns:(n+1)*columns]
-                if self._valuesAreIntegers:
+                if self._valuesAreIntegers and all([float(x).is_integer() for x in sample]):
                     sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
                 else:
                     sampleText = " ".join(map(lambda x: "%15s" % ("%6.9f" % float(x)), sample))
@@ -275,7 +275,7 @@ class Array:
 
             for n in (range(rows-3,rows)):
                 sample = self._values[n*columns:(n+1)*columns]
-                if self._valuesAreIntegers:
+                if self._valuesAreIntegers and all([float(x).is_integer() for x in sample]):
                     sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
                 else:
                     sampleText = " ".join(map(lambda x: "%15s" % ("%6.9f" % float(x)), sample))
@@ -283,7 +283,7 @@ class Array:
         else:
             for n in range(rows):
                 sample = self._values[n*columns:(n+1)*columns]
-                if self._valuesAreIntegers:
+                if self._valuesAreIntegers and all([float(x).is_integer() for x in sample]):
                     sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
                 else:
                     sampleText = " ".join(map(lambda x: "%15s" % ("%6.9f" % float(x)), sample))
-- 
2.43.0


From 1170e8465dd79d940b974d4c86069d27152253be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 44/54] fix: the no-op process of the base ProcessNode returned
 an undefined name

---
 python/aces/clf/ProcessNode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index df4117a..6b54ee1 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -319,7 +319,7 @@ class ProcessNode():
     def process(self, values, stride=0, verbose=False):
         if verbose:
             print( "ProcessNode::process - no op")
-        return value
+        return values
 
     # Setters and getters
     def setInBitDepth(self, name):
-- 
2.43.0


From 56932efeb7f43e181a8db84be2cb214b2317b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 45/54] fix: IndexMap.setValues failed, or kept the old cached
 evaluation, with caching

---
 python/aces/clf/IndexMap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/IndexMap.py b/python/aces/clf/IndexMap.py
index 10d231e..26d4bee 100644
--- a/python/aces/clf/IndexMap.py
+++ b/python/aces/clf/IndexMap.py
@@ -81,8 +81,8 @@ class IndexMap:
 
     def setValues(self, values):
         self._values = values
-        if self._useCachedProcess and self._values != [] and self._dimension != []:
-            self._createCachedEval()
+        # The cached evaluation is created again when it is next needed
+        self._processCached = None
     def getValues(self):
         return self._values
 
-- 
2.43.0


From 8b2688653e5acc9693e976b27c34c49cfb4ac01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 46/54] fix: the nearest half-domain lookup tested an undefined
 name

---
 python/aces/clf/Array.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 05bd8c2..483e355 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -351,10 +351,9 @@ class Array:
 
         # Input half-float values are treated as 16 bit unsigned integers
         # Those integers are the index into the LUT
-        if not interpolate:
-            index = halfToUInt16(position)
-            value = self.lookup1D(index, channel)
-            result = value
+        index = halfToUInt16(position)
+        value = self.lookup1D(index, channel)
+        result = value
 
         return result
 
-- 
2.43.0


From 2683cc02e6ea6cbd85fa180fbaa9f609fadf8376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 47/54] fix: a CLF array with values missing or left over was
 read as if complete

---
 python/aces/clf/Array.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 483e355..9b334ef 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -244,6 +244,13 @@ class Array:
         for i in range(len(textValues)):
             numValues[i] = cast(textValues[i])
 
+        # The last number of the three of a Matrix array is its count of channels
+        expected = 1
+        for size in (self._dimensions[:2] if len(self._dimensions) == 3 else self._dimensions):
+            expected *= size
+        if len(numValues) != expected:
+            raise ValueError("Array of dimensions %s has %d values" % (self._dimensions, len(numValues)))
+
         self.setValues(numValues)
     # read
 
-- 
2.43.0


From 3c7a7db196ccc3576ef7ffddf070d0bf5a140ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 48/54] fix: a .spi1d file with samples missing or left over
 was read as if complete

---
 python/aces/lutFormats/LutSPI.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index ac30d37..9dfa0ca 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -192,6 +192,11 @@ class LutFormatSPI(LutFormat.LutFormat):
             #else:
             #    print( "Skipping line : %s" % tokens )
 
+        if len(samples) == 0 or len(samples) != resolution[0]*resolution[1]:
+            print( "%s declares %d samples of %d components, found %d values" % (
+                lutPath, resolution[0], resolution[1], len(samples)) )
+            return False
+
         #
         # Create ProcessNodes
         #
-- 
2.43.0


From 446c0ba2f872d75f200810288c6624ce471138b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 49/54] fix: .spi3d samples are placed by the indices on their
 line, all of them once

---
 python/aces/lutFormats/LutSPI.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index 9dfa0ca..5da1312 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -264,14 +264,25 @@ class LutFormatSPI(LutFormat.LutFormat):
                     tokens = map(int, lines[2].split())
                     resolution = tokens
 
-                    # This assumes that the value are printed in order
-                    # with blue incrementing fastest like the CLF specification
-                    # This is generally true, but should be generalized at some
-                    # point to take into account the indices printed as the 
-                    # first three values on each line
+                    # Samples belong at the indices printed as the first three
+                    # values on each line, stored with blue incrementing fastest
+                    # like the CLF specification
+                    samples = [None]*(resolution[0]*resolution[1]*resolution[2]*3)
                     for line in lines[3:]:
-                        tokens = map(float, line.split())
-                        samples.extend(tokens[3:]) 
+                        tokens = line.split()
+                        (r, g, b) = map(int, tokens[:3])
+                        if not (0 <= r < resolution[0] and
+                            0 <= g < resolution[1] and
+                            0 <= b < resolution[2] and
+                            len(tokens) == 6):
+                            print( "%s : unexpected line : %s" % (lutPath, line) )
+                            return False
+                        index = ((r*resolution[1] + g)*resolution[2] + b)*3
+                        samples[index:index+3] = map(float, tokens[3:])
+
+        if samples == [] or None in samples or len(lines) != 3 + len(samples)/3:
+            print( "%s does not hold exactly one sample for each lattice point" % lutPath )
+            return False
 
         #
         # Create ProcessNodes
-- 
2.43.0


From a26fa5c2890f78dee8cc78f59e5eabaf0f7c22ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 50/54] fix: a .csp file with samples missing or left over was
 read as if complete

---
 python/aces/lutFormats/LutCSP.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 376eb64..8a91480 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -319,6 +319,18 @@ class LutFormatCSP(LutFormat.LutFormat):
                 resolution = map(int, lines[dataStart].split())
                 dataStart += 1
 
+                # One line for each sample
+                expected = 1
+                for size in resolution:
+                    expected *= size
+                sampleSizes = [len(line.split()) for line in lines[dataStart:]]
+                prelutResolutions = [prelutRedResolution, prelutGreenResolution, prelutBlueResolution]
+                if (len(resolution) != {"1D":1, "3D":3}[format] or sampleSizes != [3]*expected or
+                    [[len(values) for values in channel] for channel in prelut] !=
+                    [[size, size] for size in prelutResolutions]):
+                    print( "%s does not hold the prelut or the %s samples it declares" % (lutPath, resolution) )
+                    return False
+
                 #print( "lut data starts on line : %d" % dataStart )
 
                 # 3D LUT data
-- 
2.43.0


From 97631431ca8323f447c2786d93470405b26b70fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 51/54] fix: a LUT format that does not implement an operation
 failed or named another format

---
 python/aces/lutFormats/LutFormat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/aces/lutFormats/LutFormat.py b/python/aces/lutFormats/LutFormat.py
index 85d5c85..c8cb4df 100644
--- a/python/aces/lutFormats/LutFormat.py
+++ b/python/aces/lutFormats/LutFormat.py
@@ -146,7 +146,7 @@ class LutFormat():
              interpolation='linear',
              inversesUseIndexMaps=True, 
              inversesUseHalfDomain=True):
-        print( "Format %s can not be read" % self.formatType )
+        print( "Format %s can not be read" % cls.formatType )
         return False
 
     @classmethod
@@ -229,7 +229,7 @@ class LutFormat():
                 lutResolution1d,
                 inputMin,
                 inputMax):
-        print( "Format %s can not be used to write 1D LUT data" % LutFormat.formatType )
+        print( "Format %s can not be used to write 1D LUT data" % cls.formatType )
         return False
 
     @classmethod
@@ -239,7 +239,7 @@ class LutFormat():
                 lutResolution3d,
                 inputMin,
                 inputMax):
-        print( "Format %s can not be used to write 3D LUT data" % LutFormat.formatType )
+        print( "Format %s can not be used to write 3D LUT data" % cls.formatType )
         return False
 
     @classmethod
@@ -255,6 +255,6 @@ class LutFormat():
                     lutResolution1dOut,
                     outputMin,
                     outputMax):
-        print( "Format %s can not be used to write 1D/3D/1D LUT data" % LutFormat.formatType )
+        print( "Format %s can not be used to write 1D/3D/1D LUT data" % cls.formatType )
         return False
 # LutFormat
-- 
2.43.0


From 749ba24b8bef74c75523173e11c3057ced2ba6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 52/54] fix: 3D sampling failed when the resolutions of the
 axes differ

---
 python/aces/lutFormats/Sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index c5f2e00..a7282a6 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -345,7 +345,7 @@ def sample3D(processList,
     #print( "sample3D" )
 
     # Sample all values in 3D range
-    samples = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[0])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[2])]
+    samples = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[2])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[0])]
 
     for r in range(lutResolution3d[0]):
         for g in range(lutResolution3d[1]):
@@ -483,7 +483,7 @@ def sample1D3D1D(processList,
     #
     #print( "sampleAndWrite1D3D1D - create 3D LUT" )
 
-    samples3d = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[0])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[2])]
+    samples3d = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[2])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[0])]
 
     for r in range(lutResolution3d[0]):
         for g in range(lutResolution3d[1]):
-- 
2.43.0


From a5083a24493bb85f60fce37dc839a59f2b0b280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 53/54] fix: inverse OCIO group transforms were converted as
 forward ones

---
 python/aces/convertOCIOtoCLF.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index bcb6ced..df6be4c 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -138,26 +138,39 @@ def convertLogToProcessNode(base, direction):
     
     return log
 
+# A transform within an inverse group is applied in its opposite direction
+def getTransformDirection(ocioTransform, inGroupInverse):
+    direction = ocioTransform.getDirection()
+    if inGroupInverse:
+        direction = 'inverse' if direction == 'forward' else 'forward'
+    return direction
+
 def convertTransformsToProcessNodes( ocioTransform, 
                                      lutSearchPath=None,
                                      inversesUseIndexMaps=True, 
-                                     inversesUseHalfDomain=True ):
+                                     inversesUseHalfDomain=True,
+                                     inGroupInverse=False ):
     pns = []
 
     #print( ocioTransform )
 
     if isinstance(ocioTransform, OCIO.GroupTransform):
         print( "Group Transform" )
-        children = ocioTransform.getTransforms()
+        children = list(ocioTransform.getTransforms())
+        # The inverse of a group is the inverses of its children, last to first
+        groupInverse = getTransformDirection(ocioTransform, inGroupInverse) != 'forward'
+        if groupInverse:
+            children.reverse()
         for childTransform in children:
             childpns = convertTransformsToProcessNodes(childTransform, 
-                lutSearchPath, inversesUseIndexMaps, inversesUseHalfDomain)
+                lutSearchPath, inversesUseIndexMaps, inversesUseHalfDomain,
+                groupInverse)
             pns.extend( childpns )
 
     elif isinstance(ocioTransform, OCIO.FileTransform):
         lutPath = ocioTransform.getSrc()
         interpolation = ocioTransform.getInterpolation()
-        direction = ocioTransform.getDirection()
+        direction = getTransformDirection(ocioTransform, inGroupInverse)
         print( "File Transform : %s, %s, %s" % (lutPath, interpolation, direction) )
 
         if lutSearchPath != None:
@@ -175,7 +188,7 @@ def convertTransformsToProcessNodes( ocioTransform,
     elif isinstance(ocioTransform, OCIO.MatrixTransform):
         matrix = ocioTransform.getMatrix()
         offset = ocioTransform.getOffset()
-        direction = ocioTransform.getDirection()
+        direction = getTransformDirection(ocioTransform, inGroupInverse)
         print( "Matrix Transform : %s, %s, %s" % (matrix, offset, direction) )
         matrixpn = convertMatrixToProcessNode(matrix, offset, direction)
         if matrixpn != None:
@@ -183,7 +196,7 @@ def convertTransformsToProcessNodes( ocioTransform,
 
     elif isinstance(ocioTransform, OCIO.LogTransform):
         base = ocioTransform.getBase()
-        direction = ocioTransform.getDirection()
+        direction = getTransformDirection(ocioTransform, inGroupInverse)
         print( "Log Transform : %s, %s" % (base, direction) )
         logpn = convertLogToProcessNode(base, direction)
         if logpn != None:
-- 
2.43.0


From f2691df366482daf83b99115f13b730a307f0b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:34 +0000
Subject: [PATCH 54/54] fix: refuse index maps that do not hold the pairs they
 declare

---
 python/aces/clf/IndexMap.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/IndexMap.py b/python/aces/clf/IndexMap.py
index 26d4bee..840d045 100644
--- a/python/aces/clf/IndexMap.py
+++ b/python/aces/clf/IndexMap.py
@@ -168,9 +168,12 @@ class IndexMap:
             if key == 'dim':
                 self._dimension = int(value)
 
-        self._values = []
-        self._values.append( map(lambda p: float(p.split('@')[0]), element.text.split()) )
-        self._values.append( map(lambda p: float(p.split('@')[1]), element.text.split()) )
+        # Each entry is a pair of values
+        pairs = [map(float, p.split('@')) for p in element.text.split()]
+        if [len(pair) for pair in pairs] != [2]*(self._dimension or 0):
+            raise ValueError("IndexMap of dimension %s does not hold that many pairs" % self._dimension)
+
+        self._values = [[pair[i] for pair in pairs] for i in range(2)]
     # read
 
     # Process values
-- 
2.43.0

