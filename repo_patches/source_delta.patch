From 512a3bd6882bac36de883bea97cece84b644cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:05 +0000
Subject: [PATCH 01/67] fix: writing a multi-dimensional file no longer
 reverses DX, NX and XNAME of the caller's dictionary in place

---
 nappy/na_file/na_file_2010.py | 5 ++---
 nappy/na_file/na_file_2110.py | 4 ++--
 nappy/na_file/na_file_2160.py | 4 ++--
 nappy/na_file/na_file_2310.py | 4 ++--
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 333ea49..4c572f2 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -56,10 +56,10 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         Writes FFI-specific header section.
         """        
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        NX = self.NX
+        NX = self.NX[:]
         NX.reverse()
         self.header.write(wrapLine("NX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 2) + "%s\n") % tuple(NX)))
         NXDEF = self.NXDEF[:]
@@ -133,7 +133,6 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         This method can be called directly by the user.
         """        
         # Set up unbounded IV loop
-        self.NX.reverse()
         for m in range(len(self.X[0])):
 
             # Write unbounded independent variable mark and auxiliary variables
diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index 8ef803b..d04a378 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -43,10 +43,10 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         Writes FFI-specific header section.
         """
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index f6121e7..408b8e0 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -49,11 +49,11 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write("\n")
         
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % tuple(DX)))
         self.header.write(wrapLine("LENX", self.annotation, self.delimiter, "%s\n" % self.LENX))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 3dfdd22..a26603b 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -44,9 +44,9 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         """
         self._writeCommonHeader()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % self.DX[0]))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
-        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(self.XNAME)))
+        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
         self._writeAuxVariablesHeaderSection()
         self._writeComments()
-- 
2.43.0


From 59feb28bebc427b7994eab4f538485cd638e5c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:28 +0000
Subject: [PATCH 02/67] fix: FFI 2310 writer lays each record out variable by
 variable, as the format defines and the reader expects

---
 nappy/na_file/na_file_2310.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index a26603b..f5e9489 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -109,7 +109,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
 
             # Write second independant variable and dependant variables
             var_string = ""
-            for p in range(self.NX[m]):
-                for n in range(self.NV):
+            for n in range(self.NV):
+                for p in range(self.NX[m]):
                     var_string = var_string + (self.format %self.V[n][m][p])
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
-- 
2.43.0


From 4ac338848a369ff5bb0f9c698018723f98f59599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:34 +0000
Subject: [PATCH 03/67] fix: reading the data section twice gives the same
 result, and FFI 2310 increments are not truncated to integers

---
 nappy/na_file/na_file_2010.py |  1 +
 nappy/na_file/na_file_2310.py | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 4c572f2..129c97f 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -91,6 +91,7 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         """
         self.V = []
         self.A = []
+        self.X[0] = []
 
         # Create an array size to request using read routines
         self.arraySize = 1
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index f5e9489..a225d53 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -53,6 +53,14 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         self._fixHeaderLength()
         self.file.write(self.header.read())
 
+    def _setupArrays(self):
+        """
+        Sets up FFI-specific arrays to fill with data (lists of lists).
+        """
+        nappy.na_file.na_file_2110.NAFile2110._setupArrays(self)
+        # Drop increments appended by a previous read of the data section
+        self.DX = self.DX[:1]
+
     def _readData1(self, datalines, ivar_count):
         """
         Reads first line/section of current block of data.
@@ -72,7 +80,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([aux[1]])
         self.NX.append(int(aux[0]))
-        self.DX.append(int(aux[2]))
+        self.DX.append(aux[2])
         return rtlines
    
     def _readData2(self, datalines, ivar_count):
-- 
2.43.0


From be7648fb542122006d53418850c95419c77d5736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 04/67] fix: read the X values of FFI 2010/3010/4010 with the
 NXDEF of their own dimension

---
 nappy/na_file/na_file_2010.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 129c97f..4868719 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -40,8 +40,9 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         self.NXDEF = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV - 1, int)
         self.NXDEF.reverse()  # Reverse because C-type array is least-changing first
         self.X = []
-        for i in range(self.NIV - 1):
-            self.X.append(nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NXDEF[i], float))
+        # Values are listed in the file in the opposite order to NXDEF (now reversed)
+        for nxdef in self.NXDEF[::-1]:
+            self.X.append(nappy.utils.text_parser.readItemsFromUnknownLines(self.file, nxdef, float))
         # Unbounded Independent variable should be first so insert empty list at start
         self.X.reverse()                 
         self.X.insert(0, [])
-- 
2.43.0


From 12e7d5e5eba2e6f5196419a2cb54c1dbdb0b42ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:11 +0000
Subject: [PATCH 05/67] fix: a record spread over several lines is rejected if
 it has too many items or the header ends within it

---
 nappy/utils/text_parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index 3150bf3..0168474 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -77,15 +77,18 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
             object = object[1:]
             items = rightStripCurlyBraces(nextitem).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            rtitems = rtitems + items
 
     else:
         while len(rtitems) < nitems:
-            items = rightStripCurlyBraces(object.readline()).strip().split()
+            nextitem = object.readline()
+            if nextitem == "":
+                raise Exception("Reached end of file before finding required number (" + str(nitems) + ") of items: \n" + str(lines))
+            items = rightStripCurlyBraces(nextitem).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            rtitems = rtitems + items
 
-    if len(extras) > 0:
+    if len(rtitems) > nitems:
         raise Exception("Could not split " + str(len(lines)) + " lines exactly into required number (" + str(nitems) + ") of items: \n" + str(lines))
 
     if rttype is not str:
-- 
2.43.0


From 2acfcae3b60ae313b3e98393331820a02695adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:18 +0000
Subject: [PATCH 06/67] fix: reject a file whose header is truncated or does
 not have the declared number of lines

---
 nappy/na_file/na_file.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 4ba54f0..e1d5b8e 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -71,6 +71,7 @@ class NAFile(nappy.na_file.na_core.NACore):
         if self.mode == "r":
             self._normalized_X = True
             self.readHeader()
+            self._checkHeaderLength()
         elif self.mode == "w":
             # Self flag to check if data written
             self.data_written = False
@@ -157,9 +158,27 @@ class NAFile(nappy.na_file.na_core.NACore):
         "Reads nlines lines from a file and returns them in a list."
         lines = []
         for i in range(nlines):
-            lines.append(self.file.readline().strip())
+            line = self.file.readline()
+            if line == "":
+                raise Exception("Reached end of file when %s lines were expected but only %s found." % (nlines, i))
+            lines.append(line.strip())
         return lines
 
+    def _checkHeaderLength(self):
+        """
+        Checks that the header just read occupies the number of lines declared
+        in the top line, as otherwise the data section would be misread.
+        """
+        header_end = self.file.tell()
+        self.file.seek(0)
+        nlines = 0
+        while self.file.tell() < header_end:
+            self.file.readline()
+            nlines += 1
+
+        if nlines != self.NLHEAD:
+            raise Exception("Number of header lines declared (%s) does not match the header found (%s lines)." % (self.NLHEAD, nlines))
+
     def _checkForBlankLines(self, datalines):
         """
         Searches for empty lines in the middle of the data section and raises
-- 
2.43.0


From a9b61fe6530bc1ea420b7056305672365c190ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:41 +0000
Subject: [PATCH 07/67] fix: blank ONAME, ORG, SNAME or MNAME can be written

---
 nappy/utils/common_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 64e13cc..ab1eae9 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -234,8 +234,8 @@ def annotateLine(item_name, annotate, delimiter, line, count=None):
 def stripQuotes(s):
     "Strips extra quotes"
     if type(s) != type("string"): s  = str(s)
-    if s[0] in ("'", '"'): s = s[1:]
-    if s[-1] in ("'", '"'): s = s[:-1]
+    if s[:1] in ("'", '"'): s = s[1:]
+    if s[-1:] in ("'", '"'): s = s[:-1]
     return s
 
 
-- 
2.43.0


From afcf5300fa1ebff9d6dddd278c9612f1332b7fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 08/67] fix: FFI 2160 reads a character independent variable
 that includes blanks, and LENX as an integer

---
 nappy/na_file/na_file_2160.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 408b8e0..1c8031f 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -33,7 +33,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), 1, float)
-        self.LENX = nappy.utils.text_parser.readItemFromLine(self.file.readline(), float)
+        self.LENX = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
         self.XNAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NIV), self.NIV, str)
         self.XNAME.reverse()  # Reverse because C-type array is least-changing first
         self._readVariablesHeaderSection()
@@ -101,9 +101,11 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         """      
         # Start with independent and Auxilliary vars
         # Get character string independent variable
-        (x1, datalines) = nappy.utils.text_parser.readItemsFromUnknownLines(datalines, 1, str)
+        # (it is a whole line as the string may include blanks)
+        x1 = nappy.utils.text_parser.readItemFromLine(datalines[0], str)
+        datalines = datalines[1:]
         self.X.append([])
-        self.X[ivar_count].append(x1[0])
+        self.X[ivar_count].append(x1)
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([])  
         
-- 
2.43.0


From d5300ea6a191ea509766eda29b09ab718655373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:11 +0000
Subject: [PATCH 09/67] fix: FFI 2160 files without character auxiliary
 variables can be written, and character missing values may include blanks

---
 nappy/na_file/na_file.py      | 2 +-
 nappy/na_file/na_file_2160.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index e1d5b8e..6d2219f 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -290,7 +290,7 @@ class NAFile(nappy.na_file.na_core.NACore):
             self.LENA = nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXC, int)
             for i in range(nonCharAuxVars):
                 self.LENA.insert(0, None)
-            self.AMISS = self.AMISS + nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXC, str)    
+            self.AMISS = self.AMISS + nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NAUXC), self.NAUXC, str)
             self.ANAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NAUXV), self.NAUXV, str)        
             
     def _readComments(self):
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 1c8031f..d47db07 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -74,8 +74,9 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
             line = (("%s" + self.delimiter) * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.AMISS[0:(self.NAUXV - self.NAUXC)])
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
-            self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
+            if self.NAUXC > 0:
+                line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
+                self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
             line = ("%s\n" * self.NAUXC) % tuple(self.AMISS[(self.NAUXV - self.NAUXC):])
             self.header.write(wrapLines("AMISS", self.annotation, self.delimiter, line))
             line = "%s\n" * self.NAUXV % tuple(self.ANAME)
-- 
2.43.0


From 359c02ee57ac045c63468f65b351ba62dcedabe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 10/67] fix: comparing NASA Ames files returns a verdict that
 covers the header, the body, their lengths and approximate equality

---
 nappy/utils/compare_na.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index ae431bf..c79619d 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -63,9 +63,9 @@ def compareNA(i1, i2, **kwargs):
     **kwargs are forwarded as dictionary to compNAFiles().
     """
     if os.path.isfile(i1):
-        apply(compNAFiles, (i1, i2), kwargs)
+        return compNAFiles(i1, i2, **kwargs)
     elif os.path.isdir(i1):
-        compDirs(i1, i2)
+        return compDirs(i1, i2)
     else:
         exitNicely("Cannot recognise/find item '" + i1 + "'.")
 
@@ -100,12 +100,11 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
         
         if len(items1) != len(items2):
             # Check that space delimiter hasn't just split identical lines to different lengths
-            if len(items1) == 1 and items1[0].split() == items2:
-                continue
-            elif len(items2) == 1 and items2[0].split() == items1:
-                continue
-            else:
-                same = False
+            items1 = " ".join(items1).split()
+            items2 = " ".join(items2).split()
+
+        if len(items1) != len(items2):
+            same = False
         else: 
             if not number_clever:
                 if items1 != items2:
@@ -121,14 +120,14 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
 
                     if a != b:
                         
-                        if approx_equal:
+                        if approx_equal and isinstance(a, float):
                         # Check to see if testing for approximate equality
                             if a == 0:  a = 0.000000001
                             if b == 0:  b = 0.000000001
                             divided = a/b
                             if divided < 1:
                                 divided = b/a
-                            if (1 - divided) > equality_threshold:
+                            if abs(1 - divided) > equality_threshold:
                                 same = False
                                 break  
                         else: 
@@ -183,28 +182,30 @@ def compNAFiles(f1, f2, header=True, body=True, number_clever=True, approx_equal
     body1 = l1[head_len1:]
     body2 = l2[head_len2:]
 
-    same = True
+    header_same = body_same = True
     if header:
         print("Comparing headers:")
         print(">>> %s header:" % f1)
         print("<<< %s header:" % f2)
-        same = compareSections(header1, header2, number_clever, approx_equal, delimiter_1, delimiter_2) 
-        if same:
+        header_same = compareSections(header1, header2, number_clever, approx_equal, delimiter_1, delimiter_2) 
+        if header_same:
             print("HEADERS ARE IDENTICAL.")
         if len(header1) != len(header2):
+            header_same = False
             print("Header lengths differ:\n>>> %s: %s\n<<< %s: %s" % (f1, len(header1), f2, len(header2)))
 
     if body:
         print("Comparing bodies:")
         print(">>> %s body:" % f1)
         print("<<< %s body:" % f2)
-        same = compareSections(body1, body2, number_clever, approx_equal, delimiter_1, delimiter_2)
-        if same:
+        body_same = compareSections(body1, body2, number_clever, approx_equal, delimiter_1, delimiter_2)
+        if body_same:
             print("BODIES ARE IDENTICAL.")
         if len(body1) != len(body2):
+            body_same = False
             print("Body lengths differ:\n>>> %s: %s\n<<< %s: %s" % (f1, len(body1), f2, len(body2)))
        
-    return same
+    return header_same and body_same
 
 
 def parseArgs(args):
@@ -251,7 +252,7 @@ def parseArgs(args):
 def main(args):
     "Main controller."
     files, arg_dict = parseArgs(args)
-    apply(compareNA, files, arg_dict) 
+    compareNA(files[0], files[1], **arg_dict)
    
  
 if __name__=="__main__":
-- 
2.43.0


From 84c41e302bdff7f135d1e1568aaf2841786a6086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 11/67] fix: FFI 1020 files can be converted to NetCDF with
 their implied axis values and auxiliary variables

---
 nappy/na_file/na_file_1020.py      | 17 ++++++++++++-----
 nappy/nc_interface/na_to_xarray.py | 10 +++++++++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/nappy/na_file/na_file_1020.py b/nappy/na_file/na_file_1020.py
index e338e2b..2f701ce 100644
--- a/nappy/na_file/na_file_1020.py
+++ b/nappy/na_file/na_file_1020.py
@@ -33,8 +33,8 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         self._normalized_X = False
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV, float)
-        if self.DX == 0:
-            raise "DX found to be zero (0). Not allowed for FFI 1020."
+        if self.DX[0] == 0:
+            raise Exception("DX found to be zero (0). Not allowed for FFI 1020.")
 
         self.NVPM = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
         self.XNAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NIV), self.NIV, str)
@@ -56,6 +56,13 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         self._fixHeaderLength()
         self.file.write(self.header.read())
 
+    def _setupArrays(self):
+        """
+        Sets up FFI-specific arrays to fill with data (lists of lists).
+        """
+        nappy.na_file.na_file_1010.NAFile1010._setupArrays(self)
+        self._normalized_X = False
+
     def _readData2(self, datalines, ivar_count):
         """
         Reads second line/section (if used) of current block of data.
@@ -76,11 +83,11 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         """
         if self._normalized_X: return
         newX = []
-        for x in self.X[0]:
+        for x in self.X:
             for i in range(self.NVPM):
-                newX.append(x + (i * self.DX))
+                newX.append(x + (i * self.DX[0]))
 
-        self.X[0] = newX
+        self.X = newX
         self._normalized_X = True
 
     def writeData(self):										
diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 7312b54..612cc20 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -340,8 +340,16 @@ class NADictToXarrayObjects:
         if not hasattr(self, 'xr_axes'):
             self._convertXarrayAxes()
 
+        coords = self.xr_axes[:1]
+
+        if self.na_file_obj.FFI == 1020:
+            # Auxiliary variables are only given where the axis values are listed in the file
+            axis = coords[0][::self.na_file_obj.NVPM]
+            marks_name = f"{axis.name}_marks"
+            coords = [axis.rename({axis.dims[0]: marks_name}).rename(marks_name)]
+
         # Set up variable
-        var = xarray_utils.create_data_array(array, name=var_name, coords=self.xr_axes[:1], 
+        var = xarray_utils.create_data_array(array, name=var_name, coords=coords, 
                                   fill_value=miss, attrs=attributes)
 
         # Sort units etc
-- 
2.43.0


From ed3d773c13c77d0337111d06220b43f454732126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 12/67] fix: variables sharing a NASA Ames variable number (or
 numbered above 999) are all written

---
 nappy/nc_interface/na_content_collector.py | 26 ++++++++--------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index e724573..fb890a0 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -246,41 +246,33 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         (vars_for_na, aux_vars_for_na).
         """
         # First do the main variables
-        ordered_vars = [None] * 1000 # Make a long list to put vars in 
+        ordered_vars = []
 
         # Create a list of other variables to collect up any that are not labelled as nasa ames variables
         other_vars = []
         for var in vars_for_na:
             if hasattr(var, "nasa_ames_var_number"):
-                ordered_vars[var.nasa_ames_var_number] = var
+                ordered_vars.append(var)
             else:
                 other_vars.append(var)
 
-        # Remake vars_for_na now in new order and clean out any that are "None"
-        vars_for_na = []
-        for var in ordered_vars:
-            if var is not None: 
-                vars_for_na.append(var)
-
-        vars_for_na = vars_for_na + other_vars
+        # Remake vars_for_na now in new order
+        ordered_vars.sort(key=lambda var: var.nasa_ames_var_number)
+        vars_for_na = ordered_vars + other_vars
 
         # Now re-order the Auxiliary variables if they previously came from NASA 
-        ordered_aux_vars = [None] * 1000
+        ordered_aux_vars = []
         other_aux_vars = []
 
         for var in aux_vars_for_na:
             if hasattr(var, "nasa_ames_aux_var_number"):
-                ordered_aux_vars[var.nasa_ames_aux_var_number] = var
+                ordered_aux_vars.append(var)
             else:
                 other_aux_vars.append(var)
 
         # Remake aux_vars_for_na now in order
-        aux_vars_for_na = []
-        for var in ordered_aux_vars:
-            if type(var) != type(None): 
-                aux_vars_for_na.append(var)
-
-        aux_vars_for_na = aux_vars_for_na + other_aux_vars
+        ordered_aux_vars.sort(key=lambda var: var.nasa_ames_aux_var_number)
+        aux_vars_for_na = ordered_aux_vars + other_aux_vars
         return (vars_for_na, aux_vars_for_na)
 
     def _decideFileFormatIndex(self, number_of_dims, aux_vars_for_na, ffis_limited=False):
-- 
2.43.0


From bdcd8a0e9efe09a1f81721cb3de3ff5e95e28924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 13/67] fix: axes that differ in only some of their values are
 not treated as identical

---
 nappy/nc_interface/xarray_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index cdea26d..60c789a 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -141,7 +141,7 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     # Do different comparisons depending on 'is_subset' argument
     if is_subset == False:
         # Check lengths and values only
-        if (len(ax1) != len(ax2)) or all(ax1.data != ax2.data):
+        if (len(ax1) != len(ax2)) or np.any(ax1.data != ax2.data):
             return False
 
     else:
-- 
2.43.0


From 6112da4a9b10afcba919fbc9d1c3e8a65d18a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 14/67] fix: a variable on a regularly spaced subset of the
 main axis is written (as auxiliary for FFI 1020, otherwise separately) rather
 than dropped

---
 nappy/nc_interface/na_content_collector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index fb890a0..6108544 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -193,13 +193,15 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 if not xarray_utils.areAxesIdentical(best_var_axes[0], first_axis):
 
                     # If not identical, then it might still qualify as an auxiliary every n time points - valid for 1020
-                    if len(var.shape) == 1:
+                    if self.requested_ffi == 1020 and number_of_dims == 1 \
+                            and xarray_utils.isUniformlySpaced(best_var_axes[0]):
                         nvpm = xarray_utils.isAxisRegularlySpacedSubsetOf(first_axis, best_var_axes[0])
 
                         # NVPM is the number of implied values which is equal to (len(ax2)/len(ax1))
-                        if nvpm:
+                        if nvpm and nvpm == self.na_dict.get("NVPM", nvpm):
                             ffis_limited = [1020]
                             self.na_dict["NVPM"] = nvpm
+                            aux_vars_for_na.append(var)
                         else: # if returned False, i.e. not regular subset axis
                             self.unused_vars.append(var)
 
-- 
2.43.0


From a0bf0f7dc4a9c768ac4371ffbd1f7772bd8ea4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 15/67] fix: convertNAToCSV honours no_header and
 convertNCToCSV honours the requested file name and writes commas

---
 nappy/nappy_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 5a0692e..49b33c5 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -231,7 +231,7 @@ def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
         csv_file = getFileNameWithNewExtension(na_file, "csv")
 
     fout = openNAFile(csv_file, "w", na_dict=na_dict)
-    fout.write(delimiter=",", annotation=annotation)
+    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
     fout.close()
     return True
 
@@ -302,8 +302,9 @@ def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
     """
     if csv_file == None:
         csv_file = getFileNameWithNewExtension(nc_file, "csv")
-        arg_dict["na_file"] = csv_file
-        arg_dict["delimiter"] = ","
+
+    arg_dict["na_file"] = csv_file
+    arg_dict["delimiter"] = ","
   
     return convertNCToNA(*[nc_file], **arg_dict)
     
-- 
2.43.0


From 33d87732d43b89d53c248302431a1caed369ca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 16/67] fix: xarray objects can be converted to NASA Ames and
 CSV files

---
 nappy/nappy_api.py                            | 6 +++---
 nappy/nc_interface/xarray_objs_to_na_files.py | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 49b33c5..f2daf2a 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -338,14 +338,14 @@ def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file,
     """
     na_items_to_override = na_items_to_override or {}
 
-    import nappy.nc_interface.xarray_objs_to_na_file
-    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+    import nappy.nc_interface.xarray_objs_to_na_files
+    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
                         na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
                         )
     convertor.convert()
 
     na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      annotation=annotation, no_header=no_header)
+                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
 
     return convertor.output_files_written 
 
diff --git a/nappy/nc_interface/xarray_objs_to_na_files.py b/nappy/nc_interface/xarray_objs_to_na_files.py
index 2197c76..dc478b3 100644
--- a/nappy/nc_interface/xarray_objs_to_na_files.py
+++ b/nappy/nc_interface/xarray_objs_to_na_files.py
@@ -54,5 +54,6 @@ class XarrayObjectsToNAFile(nappy.nc_interface.nc_to_na.NCToNA):
         self.requested_ffi = requested_ffi
 
         self.converted = False
+        self.na_dict_list = []
         self.output_message = []
 
-- 
2.43.0


From d3de2565a728ffe3af6e60565e5b7a4fef7bcce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 17/67] fix: appending to a NetCDF file keeps its existing
 contents

---
 nappy/nc_interface/na_to_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 0876215..3299cf6 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -106,7 +106,7 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         self.fix_attrs(ds)
 
         # Write to NetCDF
-        ds.to_netcdf(file_name)
+        ds.to_netcdf(file_name, mode=mode)
 
         log.info(f"NetCDF file '{file_name}' written successfully.")
         return True
-- 
2.43.0


From 07e411c21f8a8e4c0dba24470194899a2360ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 18/67] fix: a NASA Ames dictionary can be written to NetCDF

---
 nappy/nappy_api.py | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index f2daf2a..f869ae2 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -122,6 +122,9 @@ ffi = nappy.chooseFFI(na_dict)
 """
 
 # Import standard library modules
+import copy
+import os
+import tempfile
 import logging
 log = logging.getLogger(__name__)
 
@@ -365,32 +368,14 @@ def writeNADictToNC(na_dict, nc_file, mode="w"):
     Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
     Note that mode="a" might not always work.
     """
-    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
-    import nappy.na_file.na_core
-    na_file_obj = nappy.na_file.na_core.NACore()
-    na_file_obj.setNADict(na_dict)
+    # Go via a temporary NASA Ames file (written with full precision)
+    with tempfile.TemporaryDirectory() as tmp_dir:
+        na_file = os.path.join(tmp_dir, "na_dict.na")
+        fout = openNAFile(na_file, "w", na_dict=copy.deepcopy(na_dict))
+        fout.write(float_format="%.17g")
+        fout.close()
+        convertNAToNC(na_file, nc_file, mode=mode, time_warning=False)
 
-    # Fake up some required methods
-    def fakeCaller():pass
-    na_file_obj.readData = fakeCaller
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Now write them out
-    import xarray as xr
-
-    fout = xr.open_dataset(nc_file, mode=mode)
-    for var in (xr_primary_vars + xr_aux_vars):
-        fout.write(var)
-
-    # Write global attributes
-    for (att, value) in global_attributes:
-        setattr(fout, att, value)
-        
-    fout.close()
-    log.info("NetCDF file '%s' written successfully." % file_name)
     return True
 
 
-- 
2.43.0


From f809fb2c7147bc4f337e5895d73fd275b49d1b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 19/67] fix: the error for an FFI that cannot be converted to
 xarray objects names that FFI

---
 nappy/nc_interface/na_to_xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 612cc20..14b7904 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -89,7 +89,7 @@ class NADictToXarrayObjects:
         # Check if we have capability to convert this FFI
         if self.na_file_obj.FFI in (2110, 2160, 2310): 
             raise Exception(("Cannot convert NASA Ames File Format Index (FFI) " + 
-                             self.na_file_obj.FFI + 
+                             str(self.na_file_obj.FFI) + 
                              " to Xarray objects. No mapping implemented yet."))
 
         self.output_message = []  # for output displaying message
-- 
2.43.0


From c70ad4e0c5acf044e46e0e23210f8722f1e53c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 20/67] fix: missing values are not scaled when converting to
 NetCDF, so they are still recognised as missing

---
 nappy/nc_interface/na_to_xarray.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 14b7904..1596c6b 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -258,10 +258,8 @@ class NADictToXarrayObjects:
 
         array = np.array(self.na_file_obj.V[var_number])
 
-        if miss:
-            array = np.ma.masked_array(array, fill_value=miss)
-
-        array = array * scal
+        # Scale the values but not the missing values
+        array = np.where(array == miss, miss, array * scal)
 
         # Set up axes
         if not hasattr(self, 'xr_axes'):
@@ -327,10 +325,9 @@ class NADictToXarrayObjects:
         (var_name, units, miss, scal) = self.na_file_obj.getAuxVariable(avar_number)
 
         array = np.array(self.na_file_obj.A[avar_number])
-        if miss:
-            array = np.ma.masked_array(array, fill_value=miss)
 
-        array = array * scal
+        # Scale the values but not the missing values
+        array = np.where(array == miss, miss, array * scal)
 
         msg="\nAdding auxiliary variable: %s" % self.na_file_obj.ANAME[avar_number]
         log.debug(msg)
-- 
2.43.0


From 2cd4e92ecda31536af4e40f9c21f44e63becb13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 21/67] fix: missing values are written in the header as they
 are in the data, so they can be matched when read back

---
 nappy/na_file/na_file.py      | 4 ++--
 nappy/na_file/na_file_2160.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 6d2219f..193cbb9 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -248,7 +248,7 @@ class NAFile(nappy.na_file.na_core.NACore):
         """
         self.header.write(wrapLine("NV", self.annotation, self.delimiter, "%d\n" % self.NV))
         self.header.write(wrapLine("VSCAL", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NV - 1) + "%s\n") % tuple(self.VSCAL)))
-        self.header.write(wrapLine("VMISS", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NV - 1) + "%s\n") % tuple(self.VMISS)))
+        self.header.write(wrapLine("VMISS", self.annotation, self.delimiter, (self.format * (self.NV - 1) + self.float_format + "\n") % tuple(self.VMISS)))
         self.header.write(wrapLines("VNAME", self.annotation, self.delimiter, "%s\n" * self.NV % tuple(self.VNAME)))
 
     def _readAuxVariablesHeaderSection(self):
@@ -271,7 +271,7 @@ class NAFile(nappy.na_file.na_core.NACore):
         if self.NAUXV > 0:
             line = (("%s" + self.delimiter) * (self.NAUXV - 1) + "%s\n")  % tuple(self.ASCAL)
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXV - 1) + "%s\n")  % tuple(self.AMISS)
+            line = (self.format * (self.NAUXV - 1) + self.float_format + "\n")  % tuple(self.AMISS)
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
             line = "%s\n" * self.NAUXV % tuple(self.ANAME)
             self.header.write(wrapLines("ANAME", self.annotation, self.delimiter, line))
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index d47db07..12b2211 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -72,7 +72,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         if self.NAUXV > 0:
             line = (("%s" + self.delimiter) * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.ASCAL)
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.AMISS[0:(self.NAUXV - self.NAUXC)])
+            line = (self.format * (self.NAUXV - self.NAUXC - 1) + self.float_format + "\n")  % tuple(self.AMISS[0:(self.NAUXV - self.NAUXC)])
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
             if self.NAUXC > 0:
                 line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
-- 
2.43.0


From be2822b7a73a18f5c6e2c2b7c5d6332d234edef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 22/67] fix: files split on a size limit are reported once,
 honour no_header and keep the requested extension

---
 nappy/nc_interface/xarray_to_na.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 246bb34..a24f690 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -11,6 +11,7 @@ Holds the class XarrayToNA that converts a set of Xarray variables (DataArrays)
 """
 
 # Imports from python standard library
+import os
 import sys
 import logging
 
@@ -313,7 +314,7 @@ class XarrayToNA:
             if size_limit is not None and (this_na_dict["FFI"] == 1001 and len(this_na_dict["V"][0]) > size_limit):
                 files_written = self._writeNAFileSubsetsWithinSizeLimit(this_na_dict, file_name, delimiter=delimiter,
                                                                         float_format=float_format, size_limit=size_limit,
-                                                                        annotation=annotation)
+                                                                        annotation=annotation, no_header=no_header)
                 file_list.extend(files_written)
 
             # If not having to split file into multiple outputs (normal condition)
@@ -365,7 +366,7 @@ class XarrayToNA:
         return self.output_message
 
     def _writeNAFileSubsetsWithinSizeLimit(self, this_na_dict, file_name, delimiter, 
-                      float_format, size_limit, annotation):
+                      float_format, size_limit, annotation, no_header=False):
         """
         If self.size_limit is specified and FFI is 1001 we can chunk the output into 
         different files in a NASA Ames compliant way. 
@@ -401,12 +402,12 @@ class XarrayToNA:
             na_dict_copy = modifyNADictCopy(this_na_dict, current_block, 
                                                                       start, end, ivol, nvol)
             # Append a letter to the file name for writing this block to
-            file_name_plus_letter = f"{file_name[:-3]}-{ivol:03d}.na"
-            file_names.append(file_name_plus_letter)
+            base_name, extension = os.path.splitext(file_name)
+            file_name_plus_letter = f"{base_name}-{ivol:03d}{extension}"
 
             # Write data to output file
             x = nappy.openNAFile(file_name_plus_letter, 'w', na_dict_copy)
-            x.write(delimiter=delimiter, float_format=float_format, annotation=annotation)
+            x.write(delimiter=delimiter, float_format=float_format, annotation=annotation, no_header=no_header)
             x.close()
 
             msg = "\nOutput files split on size limit: %s\nFilename used: %s" % (size_limit, file_name_plus_letter)
-- 
2.43.0


From 56184904b3c0fbc88daab66604394cf509b8b32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 23/67] fix: output file names replace or keep the extension of
 the input name, whatever its directory

---
 nappy/nc_interface/xarray_to_na.py | 4 ++--
 nappy/utils/common_utils.py        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index a24f690..00a0b4b 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -212,7 +212,7 @@ class XarrayToNA:
                 base_name = base_name[:-3]
             na_file = base_name + ".na"
 
-        name_parts = na_file.split(".")
+        (stem, extension) = os.path.splitext(na_file)
 
         # Now, create some valid file names
         if len(self.na_dict_list) == 1:
@@ -222,7 +222,7 @@ class XarrayToNA:
 
             for file_counter in range(1, len(self.na_dict_list) + 1):
                 suffix = f"_{file_counter}"
-                new_name = (".".join(name_parts[:-1])) + suffix + "." + name_parts[-1]
+                new_name = stem + suffix + extension
                 file_names.append(new_name)
 	    
         return file_names
diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index ab1eae9..af5edfe 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -102,7 +102,7 @@ def getFileNameWithNewExtension(input_file, format):
     last_four = base_name[-4:]
     found = last_four.find(".")
     if found > -1:
-        idx = len(base_name) + found
+        idx = len(base_name) - len(last_four) + found
         base_name = base_name[:idx]
     return base_name + "." + format
 
-- 
2.43.0


From 2987ce4e48a0ec17b381ca57a31a29c42b30e6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 24/67] fix: writing converted NetCDF content twice gives the
 same files, and a comment override can be a string

---
 nappy/nc_interface/xarray_to_na.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 00a0b4b..3fbe124 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -269,6 +269,7 @@ class XarrayToNA:
 
             # Set up current na dict
             (this_na_dict, vars_to_write) = na_dict_and_var_ids
+            this_na_dict = this_na_dict.copy()
 
             # Override content of NASA Ames if they are permitted
             for key in overriders:
@@ -281,6 +282,9 @@ class XarrayToNA:
                     else:
                         new_item = overriders[key]
 
+                    if key in ("SCOM", "NCOM") and isinstance(new_item, str):
+                        new_item = new_item.split("\n")
+
                     # Do specific overwrite for comments by inserting lines at start
                     if key in ("SCOM", "NCOM"):
 
@@ -449,7 +453,7 @@ class XarrayToNA:
 
         col_names.extend(na_dict["VNAME"])
         col_names_line = ",".join(col_names)
-        na_dict["NCOM"].append(col_names_line) 
+        na_dict["NCOM"] = na_dict["NCOM"] + [col_names_line]
         na_dict["NNCOML"] = len(na_dict["NCOM"])
         return  
 
-- 
2.43.0


From be8d4b431d9a94067fbaa353ea80533ca53a0741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 25/67] fix: only the extension of the file name itself is
 replaced, whatever its length

---
 nappy/utils/common_utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index af5edfe..745e4ac 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -13,6 +13,7 @@ Functions and classes commonly used in nappy.
 # Standard library imports
 from io import StringIO
 import logging
+import os
 
 # Imports from local package
 from nappy import __version__
@@ -98,12 +99,7 @@ def getFileNameWithNewExtension(input_file, format):
     (i) replacing initial extension if there is one, OR
     (ii) just appending new extension.
     """
-    base_name = input_file
-    last_four = base_name[-4:]
-    found = last_four.find(".")
-    if found > -1:
-        idx = len(base_name) - len(last_four) + found
-        base_name = base_name[:idx]
+    base_name = os.path.splitext(input_file)[0]
     return base_name + "." + format
 
 
-- 
2.43.0


From 1b41abd765ce68fe79e44774285df36728761149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 26/67] fix: choose the FFI of two-dimensional dictionaries
 with a single mark or varying lengths, and read the FFI given just a file
 name

---
 nappy/utils/common_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 745e4ac..f683f42 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -33,7 +33,7 @@ def getNAFileClass(ffi):
     return eval("%s.%s" % (mod, cls))
    
 
-def readFFI(filename, ignore_header_lines):
+def readFFI(filename, ignore_header_lines=0):
     """
     Function to read the top line of a NASA Ames file to extract
     the File Format Index (FFI) and return it as an integer.
@@ -69,10 +69,10 @@ def chooseFFI(na_dict):
         if type(d["X"][0][0]) == type("string"):
             # 2160 - the  independent unbounded variable is a character string
             return 2160
-        elif type(d["X"][0][1]) == type([1,2]) and len(d["X"][0][1]) > 1:
+        elif all(len(x) == 2 and type(x[1]) == type([1,2]) for x in d["X"]) and any(len(x[1]) > 1 for x in d["X"]):
             # 2110 - one independent variable changes length and the values are specified
             return 2110
-        elif type(d["X"][0][1]) == type([1,2]) and len(d["X"][0][1]) == 1:
+        elif all(len(x) == 2 and type(x[1]) == type([1,2]) for x in d["X"]):
             # 2310 - one indepenent variable changes length but only the first value is specifically stated
             return 2310
         else:            
-- 
2.43.0


From a38d72e1fec56e179922291061a68734d3f3c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 27/67] fix: nc2na and nc2csv accept -l as documented, and the
 nc2csv command writes comma-separated .csv files

---
 nappy/script/nc2csv.py | 13 +++++++------
 nappy/script/nc2na.py  |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index ee45ec1..842d017 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -94,7 +94,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
@@ -123,8 +123,13 @@ def nc2csv(args=None):
     if args is None:
         args = sys.argv[1:]
 
+    if "-d" in args:
+        exitNicely("nc2csv.py does not accept the -d argument as the delimiter is fixed as a comma, try using nc2na.py instead.")
+
     arg_dict = parseArgs(args)
-    csv_files = nappy.convertNCToNA(**arg_dict)
+    del arg_dict["delimiter"]
+    arg_dict["csv_file"] = arg_dict.pop("na_file")
+    csv_files = nappy.convertNCToCSV(**arg_dict)
 
     # If user only wants files then only give them that
     if arg_dict["only_return_file_names"]:
@@ -141,8 +146,4 @@ def nc2csv(args=None):
 
 if __name__ == "__main__":
     args = sys.argv[1:]
-    if "-d" in args:
-        exitNicely("nc2csv.py does not accept the -d argument as the delimiter is fixed as a comma, try using nc2na.py instead.")
-
-    args.extend(["-d", ","])
     nc2csv(args)
\ No newline at end of file
diff --git a/nappy/script/nc2na.py b/nappy/script/nc2na.py
index a83cb13..9f2f6f4 100755
--- a/nappy/script/nc2na.py
+++ b/nappy/script/nc2na.py
@@ -95,7 +95,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
-- 
2.43.0


From 08f79a08bc9cce1f8ec3f9a64260529c71b447ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 28/67] fix: the na2nc, nc2na and nc2csv commands exit with
 status 0 on success

---
 nappy/script/na2nc.py  | 4 +++-
 nappy/script/nc2csv.py | 4 +++-
 nappy/script/nc2na.py  | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/nappy/script/na2nc.py b/nappy/script/na2nc.py
index 4299e90..2be93a3 100755
--- a/nappy/script/na2nc.py
+++ b/nappy/script/na2nc.py
@@ -112,7 +112,9 @@ def na2nc(args=None):
     """
 
     if args is None:
-        args = sys.argv[1:]
+        # Return nothing, as the console script would use it as the exit status
+        na2nc(sys.argv[1:])
+        return
 
     arg_dict = parseArgs(args)
     nc_file = nappy.convertNAToNC(**arg_dict)
diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index 842d017..83ba819 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -121,7 +121,9 @@ def nc2csv(args=None):
     """
 
     if args is None:
-        args = sys.argv[1:]
+        # Return nothing, as the console script would use it as the exit status
+        nc2csv(sys.argv[1:])
+        return
 
     if "-d" in args:
         exitNicely("nc2csv.py does not accept the -d argument as the delimiter is fixed as a comma, try using nc2na.py instead.")
diff --git a/nappy/script/nc2na.py b/nappy/script/nc2na.py
index 9f2f6f4..4700a3b 100755
--- a/nappy/script/nc2na.py
+++ b/nappy/script/nc2na.py
@@ -122,7 +122,9 @@ def nc2na(args=None):
     """
 
     if args is None:
-        args = sys.argv[1:]
+        # Return nothing, as the console script would use it as the exit status
+        nc2na(sys.argv[1:])
+        return
 
     arg_dict = parseArgs(args)
     na_files = nappy.convertNCToNA(**arg_dict)
-- 
2.43.0


From fc93f808ed8c99bcd240b4406ca174584e2a4cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 29/67] fix: global attributes cannot corrupt the layout of the
 NASA Ames header

---
 nappy/nc_interface/na_content_collector.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 6108544..8dfbf8e 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -516,7 +516,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         for att, value in local_nc_atts.items():
             if att not in local_nc_to_na_map:
-                local_nc_to_na_map[key] = value
+                local_nc_to_na_map[att] = value
 
         self.extra_comments = [[], [], []]  # Normal comments, special comments, other comments
 
@@ -597,7 +597,12 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
                 elif key in ("Conventions", "references"):
                     self.extra_comments[2].append(f"{key}:   {value}")
+                elif local_nc_to_na_map[key] in ("FFI", "NLHEAD"):
+                    # These depend on the content being written
+                    pass
                 else:
+                    if isinstance(value, str):
+                        value = value.replace("\n", "  ")
                     self.na_dict[local_nc_to_na_map[key]] = value
             else:
                 self.extra_comments[2].append(f"{key}:   {value}")
-- 
2.43.0


From ec3a12446890e2cb2f96d1069adb9864f3ceda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 30/67] fix: singleton variables are recorded in the special
 comments whatever else is recorded there

---
 nappy/nc_interface/na_content_collector.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 8dfbf8e..30a8ead 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -681,9 +681,14 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             rank_zero_vars_string.insert(0, hp["sing_start"])
             rank_zero_vars_string.append(hp["sing_end"])
 
+            if spec_comm_flag == None:
+                SCOM = [hp["sc_start"]]
+                spec_comm_flag = 1
+
+            SCOM += rank_zero_vars_string
+
         # Loop through variables and add 
         for var in self.ordered_vars:
-            varflag = "unused"
             var_name_written = False
 
             name = xarray_utils.getBestName(var)
@@ -693,16 +698,14 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     value = value[0]
 
                 if isinstance(value, str) or np.isscalar(value) and scom not in used_var_atts:
-                    if varflag == "unused":
-                        if var_comm_flag == None:
-                            var_comm_flag = 1
+                    if var_comm_flag == None:
+                        if spec_comm_flag == None:
+                            SCOM = [hp["sc_start"]]
+                            spec_comm_flag = 1
 
-                    if spec_comm_flag == None:
-                        SCOM = [hp["sc_start"]] + rank_zero_vars_string
                         SCOM.append(hp["addl_vatts"])
                         SCOM.append(hp["ncatts_start"])
-                        varflag = "using" 
-                        spec_comm_flag = 1
+                        var_comm_flag = 1
 
                     if not var_name_written:
                         SCOM.append("  Variable %s: %s" % (var.name, name))
-- 
2.43.0


From c7e285e50342498b612a3a33fcc42030032adb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 31/67] fix: FFI 2110 and 2310 output describes the axis its
 auxiliary variables refer to, with numeric values for time axes

---
 nappy/nc_interface/na_content_collector.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 30a8ead..bd8926d 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -393,9 +393,9 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 if self.na_dict["FFI"] == 2110:
                     new_x = []
                     new_nx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
 
-                    for i in self.ax0[:]:
+                    for i in self.na_dict["X"][0]:
                         new_x.append([i, ax2_values])
                         new_nx.append(len(ax2_values))
 
@@ -406,7 +406,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     # Now auxiliary variable info here with independent var info
                     # First aux var is NX
                     self.na_dict["A"] = [self.na_dict["NX"][:]]
-                    ind_var_name = self.na_dict["XNAME"][0]
+                    ind_var_name = self.na_dict["XNAME"][1]
                     self.na_dict["ANAME"] = ["Number of '%s' values recorded in subsequent data records" % ind_var_name]
                     self.na_dict["AMISS"] = [-9999.999]
                     self.na_dict["ASCAL"] = [1.0]
@@ -416,10 +416,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     new_x = []
                     new_nx = []
                     new_dx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
-                    incr = xarray_utils.get_interval(ax2_values, 0, 1)
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
+                    incr = xarray_utils.get_interval(ax2_values, 0, 1) if len(ax2_values) > 1 else 0
 
-                    for i in self.ax0[:]:
+                    for i in self.na_dict["X"][0]:
                         new_x.append([i, ax2_values])
                         new_nx.append(len(ax2_values))
                         new_dx.append(incr)
@@ -427,16 +427,16 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     # Re-assign to new lists
                     self.na_dict["NX"] = new_nx
                     self.na_dict["X"] = new_x
-                    self.na_dict["DX"] = new_dx
+                    self.na_dict["DX"] = self.na_dict["DX"][:1] + new_dx
 
                     # Now auxiliary variable info here with independent var info
                     # First three aux vars are NX, X0 and DX
                     self.na_dict["A"] = []
                     self.na_dict["A"].append(self.na_dict["NX"][:])
                     self.na_dict["A"].append([i[1][0] for i in self.na_dict["X"]])
-                    self.na_dict["A"].append(self.na_dict["DX"][:])
+                    self.na_dict["A"].append(new_dx)
 
-                    ind_var_name = self.na_dict["XNAME"][0]
+                    ind_var_name = self.na_dict["XNAME"][1]
                     self.na_dict["ANAME"] = ["Number of '%s' values recorded in subsequent data records" % ind_var_name,
                                              "'%s' value for first data point" % ind_var_name,
                                              "'%s' increment" % ind_var_name]
-- 
2.43.0


From 8a452e79190f1e49255c15250bddac3e855a09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 32/67] fix: time axes may have any name and position, and need
 not have recognised units

---
 nappy/nc_interface/na_content_collector.py | 11 ++++++-----
 nappy/nc_interface/xarray_utils.py         |  9 +++++++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index bd8926d..cb8cf3f 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -476,6 +476,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         NASA Ames). It appends to the various self.na_dict containers.
         """
         length = len(axis)
+        values = xarray_utils.getArrayAsList(axis)
 
         self.na_dict["NX"].append(length)
         self.na_dict["XNAME"].append(xarray_utils.getBestName(axis))
@@ -484,16 +485,16 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         if length < 2:
             self.na_dict["DX"].append(0)
             self.na_dict["NXDEF"].append(length)
-            self.na_dict["X"].append(axis.data.tolist())        
+            self.na_dict["X"].append(values)
             return
 
-        incr = xarray_utils.get_interval(axis, 0, 1)
+        incr = values[1] - values[0]
 
         for i in range(1, length):
-            if (axis[i] - axis[i - 1]) != incr:
+            if (values[i] - values[i - 1]) != incr:
                 self.na_dict["DX"].append(0)
                 self.na_dict["NXDEF"].append(length)
-                self.na_dict["X"].append(axis.data.tolist())
+                self.na_dict["X"].append(values)
                 break
 
         else: # If did not break out of the loop
@@ -503,7 +504,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
             self.na_dict["DX"].append(incr)
             self.na_dict["NXDEF"].append(max_length)
-            self.na_dict["X"].append(axis[:max_length])
+            self.na_dict["X"].append(values[:max_length])
 
     def _defineNAGlobals(self):
         """
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 60c789a..0c811a6 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -286,8 +286,13 @@ def create_data_array(arr, name, coords, attrs, fill_value):
 
 
 def datetimes_to_nums(da):
-    units = da.time.encoding['units']
-    calendar = da.time.encoding.get('calendar', 'standard')
+    if np.issubdtype(da.dtype, np.number):
+        # Not decoded so these are already numbers
+        return da.data
+
+    encoding = da.encoding if 'units' in da.encoding else da.time.encoding
+    units = encoding['units']
+    calendar = encoding.get('calendar', 'standard')
     arr = cftime.date2num(da.data, units, calendar=calendar)
     return arr
 
-- 
2.43.0


From 9a263b9a7e6a239f3d0b76ce67a64c800b18bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:52 +0000
Subject: [PATCH 33/67] fix: the date of the data follows the calendar of the
 time axis, and scalar date variables are converted

---
 nappy/nc_interface/na_content_collector.py | 6 ++++--
 nappy/utils/common_utils.py                | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index cb8cf3f..61f2474 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -771,6 +771,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             # Get first date in list
             try:
                 units = self.ax0.encoding["units"]
+                calendar = self.ax0.encoding.get("calendar", "standard")
                 first_day = self.na_dict["X"][0]
 
                 # Cope with "X" being a list or list of lists (for different FFIs)
@@ -778,12 +779,13 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     first_day = first_day[0]
 
                 self.na_dict["DATE"] = \
-                    [getattr(cftime.num2date(first_day, units), attr) for attr in ('year', 'month', 'day')]                
+                    [getattr(cftime.num2date(first_day, units, calendar=calendar), attr) for attr in ('year', 'month', 'day')]                
             except Exception:
                 msg = warning_message
                 log.info(msg)
                 self.output_message.append(msg)
-                self.na_dict["DATE"] = [999] * 3 
+                if not "DATE" in self.na_dict:
+                    self.na_dict["DATE"] = [999] * 3 
 
         else: 
             if not "DATE" in self.na_dict:
diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index f683f42..7d81029 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -264,6 +264,9 @@ def get_rank_zero_array_value(arr):
         return str(arr)
     elif arr.dtype.type is np.bytes_:
         return arr.flat[0].decode()
+    elif arr.dtype.kind in "OM":
+        # E.g. a date and time
+        return str(arr)
     else:
         return float(arr) 
 
-- 
2.43.0


From dccd78850939ce4c2ec46d29418db0d630646258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 34/67] fix: NASA Ames variables whose names become the same in
 NetCDF are all written

---
 nappy/nc_interface/na_to_nc.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 3299cf6..f276d37 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -101,7 +101,18 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         [self.fix_attrs(v) for v in combined_var_list]
 
         # Create the Datset
-        variables = {da.name: da for da in combined_var_list}
+        axis_names = {dim for da in combined_var_list for dim in da.dims}
+        variables = {}
+
+        for da in combined_var_list:
+            # Distinguish variables of the same name (e.g. having different units)
+            name, count = da.name, 1
+            while name in variables or name in axis_names:
+                count += 1
+                name = f"{da.name}_{count}"
+
+            variables[name] = da
+
         ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
         self.fix_attrs(ds)
 
-- 
2.43.0


From 55959ea44041778837422070c5f93c2a1a224018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 35/67] fix: variables are selected by name even if it starts
 with a digit, unknown auxiliary names are refused, and dataset coordinates
 keep their order

---
 nappy/nc_interface/na_to_xarray.py | 6 +++---
 nappy/nc_interface/xarray_to_na.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 1596c6b..456554b 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -226,7 +226,7 @@ class NADictToXarrayObjects:
 
         else:
             # If integers or numbers: then use as indices for selecting variables
-            if isinstance(self.variables[0], int) or re.match(r"\d+", str(self.variables[0])):
+            if isinstance(self.variables[0], int) or re.fullmatch(r"\d+", str(self.variables[0])):
 
                 for var_number in self.variables:
                     vn = int(var_number)
@@ -313,8 +313,8 @@ class NADictToXarrayObjects:
                     if avar_name in self.na_file_obj.ANAME:
                         avar_number = self.na_file_obj.ANAME.index(avar_name)
                         self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number)) 
-            else:
-                raise Exception("Auxiliary variable name not known: " + avar_name)        
+                    else:
+                        raise Exception("Auxiliary variable name not known: " + avar_name)
 
     def _convertNAAuxToXarrayVariable(self, avar_number, attributes=None):
         """
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 3fbe124..6595ca1 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -524,7 +524,7 @@ class XarrayDatasetToNA(XarrayToNA):
 
         # Also capture variables that are auxiliary coords of main variables 
         # (i.e. they are non-dimension coordinates)
-        aux_coord_var_keys = set([coord for var in xr_dset.values() for coord in var.coords.keys() \
+        aux_coord_var_keys = dict.fromkeys([coord for var in xr_dset.values() for coord in var.coords.keys() \
                                   if coord not in var.dims])
 
         # Compile into one list of variable to convert
-- 
2.43.0


From 7f15abf18b9b7180607303ac51f6ef665c84a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 36/67] fix: trailing annotations in curly braces may include a
 caret, as in units

---
 nappy/utils/right_strip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/right_strip.py b/nappy/utils/right_strip.py
index cc2fb44..335177f 100644
--- a/nappy/utils/right_strip.py
+++ b/nappy/utils/right_strip.py
@@ -19,7 +19,7 @@ Out: Tout (C)
 
 import re
 
-rstrip_regex = re.compile(r"^(.+)\{[^{^}]*\}\s*$")
+rstrip_regex = re.compile(r"^(.+)\{[^{}]*\}\s*$")
 
 
 def rightStripCurlyBraces(line):
-- 
2.43.0


From f42ac5365dd221c003c048ebc4400668078aee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 37/67] fix: a quote at only one end of ONAME, ORG, SNAME or
 MNAME is kept

---
 nappy/utils/common_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 7d81029..5690048 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -230,8 +230,7 @@ def annotateLine(item_name, annotate, delimiter, line, count=None):
 def stripQuotes(s):
     "Strips extra quotes"
     if type(s) != type("string"): s  = str(s)
-    if s[:1] in ("'", '"'): s = s[1:]
-    if s[-1:] in ("'", '"'): s = s[:-1]
+    if len(s) > 1 and s[0] == s[-1] and s[0] in ("'", '"'): s = s[1:-1]
     return s
 
 
-- 
2.43.0


From be2cd82721aa6307a62dd02103d549ab3ac5fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 38/67] fix: negative or fractional counts are rejected when
 reading

---
 nappy/na_file/na_file.py      | 22 ++++++++++++++++------
 nappy/na_file/na_file_1020.py |  2 +-
 nappy/na_file/na_file_2010.py |  2 ++
 nappy/na_file/na_file_2110.py |  2 +-
 nappy/na_file/na_file_2160.py |  2 +-
 nappy/na_file/na_file_2310.py |  2 +-
 6 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 193cbb9..23f6c7d 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -154,6 +154,16 @@ class NAFile(nappy.na_file.na_core.NACore):
         self.NIV = int(self.FFI/1000)
         return (self.NLHEAD, self.FFI)
 
+    def _readCount(self):
+        "Reads a line that holds a number of lines or variables, which cannot be negative."
+        return self._checkCount(nappy.utils.text_parser.readItemFromLine(self.file.readline(), int))
+
+    def _checkCount(self, value, minimum=0):
+        "Returns value as an integer, having checked it is one and is not below minimum."
+        if value != int(value) or value < minimum:
+            raise Exception("Invalid number of lines, variables or values: %s" % value)
+        return int(value)
+
     def _readLines(self, nlines):
         "Reads nlines lines from a file and returns them in a list."
         lines = []
@@ -236,7 +246,7 @@ class NAFile(nappy.na_file.na_core.NACore):
         Reads the variables section of the header.
         Assumes we are at the right point in the file.
         """
-        self.NV = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
+        self.NV = self._readCount()
         self.VSCAL = nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NV, float)
         self.VMISS = nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NV, float)
         self.VNAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NV), self.NV, str)
@@ -256,7 +266,7 @@ class NAFile(nappy.na_file.na_core.NACore):
         Reads the auxiliary variables section of the header.
         Assumes we are at the right point in the file.
         """
-        self.NAUXV = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
+        self.NAUXV = self._readCount()
         if self.NAUXV > 0:        
             self.ASCAL = nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXV, float)
             self.AMISS = nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXV, float)
@@ -281,8 +291,8 @@ class NAFile(nappy.na_file.na_core.NACore):
         Reads the character-encoded auxiliary variables section of the header.
         Assumes we are at the right point in the file.
         """
-        self.NAUXV = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
-        self.NAUXC = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
+        self.NAUXV = self._readCount()
+        self.NAUXC = self._readCount()
         nonCharAuxVars = self.NAUXV - self.NAUXC
         if self.NAUXV > 0:
             self.ASCAL = nappy.utils.text_parser.readItemsFromUnknownLines(self.file, nonCharAuxVars, float)
@@ -298,9 +308,9 @@ class NAFile(nappy.na_file.na_core.NACore):
         Reads the special and normal comments sections.
         Assumes we are at the right point in the file.
         """        
-        self.NSCOML = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
+        self.NSCOML = self._readCount()
         self._readSpecialComments()
-        self.NNCOML = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
+        self.NNCOML = self._readCount()
         self._readNormalComments()
 
     def _writeComments(self):
diff --git a/nappy/na_file/na_file_1020.py b/nappy/na_file/na_file_1020.py
index 2f701ce..9ec5df0 100644
--- a/nappy/na_file/na_file_1020.py
+++ b/nappy/na_file/na_file_1020.py
@@ -36,7 +36,7 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         if self.DX[0] == 0:
             raise Exception("DX found to be zero (0). Not allowed for FFI 1020.")
 
-        self.NVPM = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
+        self.NVPM = self._checkCount(nappy.utils.text_parser.readItemFromLine(self.file.readline(), int), 1)
         self.XNAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NIV), self.NIV, str)
         self._readVariablesHeaderSection()
         self._readAuxVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 4868719..e680141 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -36,8 +36,10 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV, float)
         self.DX.reverse()  # Reverse because C-type array is least-changing first
         self.NX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV - 1, int)
+        self.NX = [self._checkCount(n, 1) for n in self.NX]
         self.NX.reverse()  # Reverse because C-type array is least - changing first
         self.NXDEF = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV - 1, int)
+        self.NXDEF = [self._checkCount(n, 1) for n in self.NXDEF]
         self.NXDEF.reverse()  # Reverse because C-type array is least-changing first
         self.X = []
         # Values are listed in the file in the opposite order to NXDEF (now reversed)
diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index d04a378..d84aacd 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -87,7 +87,7 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         self.X[ivar_count].append(x)
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([])  
-        self.NX.append(int(aux[0]))
+        self.NX.append(self._checkCount(aux[0]))
         return rtlines
 
     def _readData2(self, datalines, ivar_count):
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 12b2211..892508b 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -112,7 +112,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         
         # Get NX and Non-character AUX vars
         (aux, datalines) = nappy.utils.text_parser.readItemsFromUnknownLines(datalines, (self.NAUXV - self.NAUXC), float)
-        self.NX.append(int(aux[0]))
+        self.NX.append(self._checkCount(aux[0]))
 
         count = 0
         for a in range(self.NAUXV - self.NAUXC):
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index a225d53..141aca2 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -79,7 +79,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
 
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([aux[1]])
-        self.NX.append(int(aux[0]))
+        self.NX.append(self._checkCount(aux[0]))
         self.DX.append(aux[2])
         return rtlines
    
-- 
2.43.0


From b9226e0ed26537aaf063f8252be9e59dee16569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 39/67] fix: the header length check copes with DOS line
 endings

---
 nappy/na_file/na_file.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 23f6c7d..95a9084 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -180,11 +180,10 @@ class NAFile(nappy.na_file.na_core.NACore):
         in the top line, as otherwise the data section would be misread.
         """
         header_end = self.file.tell()
+        data_lines = len(self.file.readlines())
         self.file.seek(0)
-        nlines = 0
-        while self.file.tell() < header_end:
-            self.file.readline()
-            nlines += 1
+        nlines = len(self.file.readlines()) - data_lines
+        self.file.seek(header_end)
 
         if nlines != self.NLHEAD:
             raise Exception("Number of header lines declared (%s) does not match the header found (%s lines)." % (self.NLHEAD, nlines))
-- 
2.43.0


From b930bde99e45f025b09fea1620eb5d4d6bcd655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 40/67] fix: identical lines and items compare the same
 whatever the delimiters

---
 nappy/utils/compare_na.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index c79619d..89d457f 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -44,7 +44,6 @@ from nappy.utils.compare import *
 equality_threshold = 0.01 # i.e. within 1% of each other
 file_exclusion_patterns = (r".*CSV.*", r".*svn.*", r"\..*", r".*\.pyc$", r".*~$") 
 file_exclusions = [re.compile(pattn) for pattn in file_exclusion_patterns]
-letter_match = re.compile(r"[a-zA-Z]")
 
 
 def exitNicely(msg):
@@ -89,14 +88,12 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
         l1[i] = l1[i].strip()
         l2[i] = l2[i].strip()
 
-        # If letters found in line then not going to be numeric 
-        # Hence we can just test if lines are identical
-        if letter_match.search(l1[i]):
-            if l1[i] == l2[i]:
-                continue
+        # Identical lines are the same whatever the delimiters
+        if l1[i] == l2[i]:
+            continue
 
-        items1 = l1[i].split(delimiter_1)
-        items2 = l2[i].split(delimiter_2)
+        items1 = [item.strip() for item in l1[i].split(delimiter_1)]
+        items2 = [item.strip() for item in l2[i].split(delimiter_2)]
         
         if len(items1) != len(items2):
             # Check that space delimiter hasn't just split identical lines to different lengths
@@ -111,6 +108,9 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
                     same = False
             else:
                 for count in range(len(items1)):
+                    if items1[count] == items2[count]:
+                        continue
+
                     try:
                         a = float(items1[count])
                         b = float(items2[count])
-- 
2.43.0


From a62a0324b74fb3858df93c45cf199481671b5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 41/67] fix: FFI 2310 is only chosen for marks that state the
 starting value held in their auxiliary variables

---
 nappy/utils/common_utils.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 5690048..79efe9a 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -69,12 +69,12 @@ def chooseFFI(na_dict):
         if type(d["X"][0][0]) == type("string"):
             # 2160 - the  independent unbounded variable is a character string
             return 2160
-        elif all(len(x) == 2 and type(x[1]) == type([1,2]) for x in d["X"]) and any(len(x[1]) > 1 for x in d["X"]):
+        elif all(len(x) == 2 and type(x[1]) == type([1,2]) for x in d["X"]):
+            if _hasOnlyStartingValues(d):
+                # 2310 - one indepenent variable changes length but only the first value is specifically stated
+                return 2310
             # 2110 - one independent variable changes length and the values are specified
             return 2110
-        elif all(len(x) == 2 and type(x[1]) == type([1,2]) for x in d["X"]):
-            # 2310 - one indepenent variable changes length but only the first value is specifically stated
-            return 2310
         else:            
             # 2010 - Straightforward 2-D variables
             return 2010
@@ -93,6 +93,19 @@ def chooseFFI(na_dict):
         raise Exception("Could not resolve the dictionary object to create a suitable NASA Ames File Format Index (FFI). Please modify the contents and try again.")
 
 
+def _hasOnlyStartingValues(d):
+    """
+    Returns whether each mark of the NASA Ames dictionary states a single value
+    of the second independent variable which is the starting value held, as
+    FFI 2310 requires, in the second auxiliary variable (if known).
+    """
+    if any(len(x[1]) != 1 for x in d["X"]):
+        return False
+    if "NAUXV" not in d or "A" not in d:
+        return True
+    return d["NAUXV"] > 2 and all(x[1][0] == a for x, a in zip(d["X"], d["A"][1]))
+
+
 def getFileNameWithNewExtension(input_file, format):
     """
     Takes an input_file name and applies new extension to it by:
-- 
2.43.0


From 2d20de14473988699bbc3c501cddcd195a0490f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 42/67] fix: default output names cannot replace the input file

property=P13
---
 nappy/nappy_api.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index f869ae2..6dd2749 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -145,6 +145,18 @@ default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
 default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
 
 
+def _getDefaultOutputFileName(input_file, format):
+    """
+    Returns the name of the output file for an input file, which is the same
+    name with a new extension. Refuses to write over the input file.
+    """
+    output_file = getFileNameWithNewExtension(input_file, format)
+    if output_file == input_file:
+        raise Exception(f"Please give the name of the output file, as the default is the input file: '{input_file}'")
+
+    return output_file
+
+
 def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
                var_and_units_callback=None):
     """
@@ -208,7 +220,7 @@ def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables
     convertor.convert()
 
     if nc_file == None:
-        nc_file = getFileNameWithNewExtension(na_file, "nc")
+        nc_file = _getDefaultOutputFileName(na_file, "nc")
 
     convertor.writeNCFile(nc_file, mode)
     return nc_file   
@@ -231,7 +243,7 @@ def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
     fin.close()
 
     if csv_file == None:
-        csv_file = getFileNameWithNewExtension(na_file, "csv")
+        csv_file = _getDefaultOutputFileName(na_file, "csv")
 
     fout = openNAFile(csv_file, "w", na_dict=na_dict)
     fout.write(delimiter=",", annotation=annotation, no_header=no_header)
@@ -280,7 +292,7 @@ def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None
         del arg_dict[arg_out]
 
     if na_file == None:
-        na_file =  getFileNameWithNewExtension(nc_file, "na")
+        na_file =  _getDefaultOutputFileName(nc_file, "na")
 
     import nappy.nc_interface.nc_to_na
     convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
@@ -304,7 +316,7 @@ def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
     NASA Ames standard.
     """
     if csv_file == None:
-        csv_file = getFileNameWithNewExtension(nc_file, "csv")
+        csv_file = _getDefaultOutputFileName(nc_file, "csv")
 
     arg_dict["na_file"] = csv_file
     arg_dict["delimiter"] = ","
-- 
2.43.0


From 597ae4589b828ce8f943fb613f3fe9c843a51d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 43/67] fix: carriage returns in attributes no longer break
 header lines

property=P24
---
 nappy/nc_interface/na_content_collector.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 61f2474..75da5e5 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -39,6 +39,8 @@ DEBUG = nappy.utils.getDebug()
 
 log = logging.getLogger(__name__)
 
+line_break = re.compile(r"\r\n|\r|\n")
+
 
 class NAContentCollector(nappy.na_file.na_core.NACore):
     """
@@ -552,8 +554,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                         self.na_dict["ORG"] = value
 
                     # NOTE: should probably do the following search and replace on all string lines
-                    self.na_dict["ONAME"] = self.na_dict["ONAME"].replace("\n", "  ")
-                    self.na_dict["ORG"] = self.na_dict["ORG"].replace("\n", "  ")
+                    self.na_dict["ONAME"] = line_break.sub("  ", self.na_dict["ONAME"])
+                    self.na_dict["ORG"] = line_break.sub("  ", self.na_dict["ORG"])
 
                 elif key == "comment":
                     # Need to work out if they are actually comments from NASA Ames in the first place
@@ -603,7 +605,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     pass
                 else:
                     if isinstance(value, str):
-                        value = value.replace("\n", "  ")
+                        value = line_break.sub("  ", value)
                     self.na_dict[local_nc_to_na_map[key]] = value
             else:
                 self.extra_comments[2].append(f"{key}:   {value}")
@@ -726,7 +728,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for c in NCOM:
             if c.strip() not in ("", " ", "  "):
                 # Replace new lines within one attribute with a newline and tab so easier to read
-                lines = c.split("\n")
+                lines = line_break.split(c)
                 for line in lines:
                     if line != lines[0]: 
                         line = "  " + line
@@ -736,7 +738,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for c in SCOM:
             if c.strip() not in ("", " ", "  "):
                 # Replace new lines within one attribute with a newline and tab so easier to read
-                lines = c.split("\n")
+                lines = line_break.split(c)
 
                 for line in lines:
                     if line != lines[0]: 
-- 
2.43.0


From 2cb290ed474a8f3b7236e7a09fd399b45a3a5c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 44/67] fix: variables with empty, multi-line or numeric names
 or units are converted

property=P24
---
 nappy/nc_interface/xarray_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 0c811a6..6b131ca 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -27,8 +27,8 @@ def getBestName(var):
 
     # Deal with object that has attributes
     for att in att_order:
-        if hasattr(var, att):   
-            name = getattr(var, att)
+        name = str(getattr(var, att, None) or "").strip()
+        if name:
             break
 
     # Deal with object that has dictionary lookup instead of attributes
@@ -42,7 +42,9 @@ def getBestName(var):
     if not name:
         raise Exception("Cannot find a valid name for variable.")
 
-    units = getattr(var, "units", "")
+    # Names and units are written on a single line
+    name = " ".join(str(name).splitlines())
+    units = " ".join(str(getattr(var, "units", "")).splitlines())
 
     # See if we can get the units from the encoding if not defined.
     # This is required for time.
-- 
2.43.0


From d872d29c803492d9af82669323d0b0ec28841b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 45/67] fix: missing values of date variables stay missing when
 converting from NetCDF

property=P18
---
 nappy/nc_interface/nc_to_na.py     | 6 ++++++
 nappy/nc_interface/xarray_utils.py | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/nc_to_na.py b/nappy/nc_interface/nc_to_na.py
index 364cb4a..a089ab1 100644
--- a/nappy/nc_interface/nc_to_na.py
+++ b/nappy/nc_interface/nc_to_na.py
@@ -68,6 +68,7 @@ class NCToNA(nappy.nc_interface.xarray_to_na.XarrayToNA):
         exclude_vars = exclude_vars or []
 
         ds = xr.open_dataset(self.nc_file, use_cftime=True, decode_timedelta=False)
+        undecoded = xr.open_dataset(self.nc_file, decode_times=False)
         xr_variables = []
 
         # Make sure var_ids is a list
@@ -90,6 +91,11 @@ class NCToNA(nappy.nc_interface.xarray_to_na.XarrayToNA):
 
                     da = ds[var_id]
 
+                    # Keep dates held by variables as numbers, since missing values get lost when decoded
+                    if da.shape != () and var_id not in ds.dims and da.dtype.kind in "OM" \
+                            and undecoded[var_id].dtype.kind in "iuf":
+                        da = undecoded[var_id].assign_coords(da.coords)
+
                     # Check whether singleton variable, if so create variable                   
                     if hasattr(da, "shape") and da.shape == ():
                         # Test type of the data to convert  
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 6b131ca..2b9d516 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -318,7 +318,7 @@ def getArrayAsList(da, missing_value=None, handle_datetimes=True):
     If ``handle_datetimes`` is True, then ensure that the units and
     calendar are used to convert datetimes to sensible values.
     """
-    if is_time(da, test_by_values=True) and handle_datetimes:
+    if is_time(da, test_by_values=True) and handle_datetimes and not np.issubdtype(da.dtype, np.number):
         arr = datetimes_to_nums(da)
 
     elif missing_value is not None:
-- 
2.43.0


From 0d13897d8cdb79be9568a29c03d14b4d1eb5d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 46/67] fix: valid values of packed variables are not confused
 with missing ones

property=P18
---
 nappy/nc_interface/xarray_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 2b9d516..479977c 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -79,6 +79,12 @@ def getMissingValue(var):
                 miss = var.encoding[key]
                 break
 
+        # The missing value of packed data is that of the packed values: unpack it if needed to tell
+        # it apart from the valid values
+        if miss is not None and ("scale_factor" in var.encoding or "add_offset" in var.encoding) \
+                and bool((var == miss).any()):
+            miss = float(miss) * var.encoding.get("scale_factor", 1) + var.encoding.get("add_offset", 0)
+
     if miss is None:
         miss = -1.e20
 
-- 
2.43.0


From 08dec3c2c7c36f7090819789227e6d3dd42cb18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 47/67] fix: valid values are not confused with missing ones
 once scaled

property=P18
---
 nappy/nc_interface/na_to_xarray.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 456554b..61d498a 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -243,6 +243,20 @@ class NADictToXarrayObjects:
                     else:
                         raise Exception(f"Variable name not known: {var_name}")
 
+    def _scaleValues(self, array, miss, scal):
+        """
+        Scales the values but not the missing values. Returns the scaled array
+        and its missing value, which is only scaled if it could not otherwise be
+        told apart from the valid values.
+        """
+        is_missing = array == miss
+        scaled = array * scal
+
+        if np.any(scaled[~is_missing] == miss):
+            miss = miss * scal
+
+        return np.where(is_missing, miss, scaled), miss
+
     def _convertNAToXarrayVariable(self, var_number, attributes=None):
         """
         Creates a single Xarray variable from the variable number provided in the list.
@@ -258,8 +272,7 @@ class NADictToXarrayObjects:
 
         array = np.array(self.na_file_obj.V[var_number])
 
-        # Scale the values but not the missing values
-        array = np.where(array == miss, miss, array * scal)
+        (array, miss) = self._scaleValues(array, miss, scal)
 
         # Set up axes
         if not hasattr(self, 'xr_axes'):
@@ -326,8 +339,7 @@ class NADictToXarrayObjects:
 
         array = np.array(self.na_file_obj.A[avar_number])
 
-        # Scale the values but not the missing values
-        array = np.where(array == miss, miss, array * scal)
+        (array, miss) = self._scaleValues(array, miss, scal)
 
         msg="\nAdding auxiliary variable: %s" % self.na_file_obj.ANAME[avar_number]
         log.debug(msg)
-- 
2.43.0


From a04fe72c485c0b04e6f8caa32a4a799e472bee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 48/67] fix: implied points on time axes can be written as FFI
 1020

property=P11
---
 nappy/nc_interface/xarray_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 479977c..37387ac 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -134,12 +134,12 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
    
     If check_id == False then don't compare the ids of the axes.
     """
-    for axtype in ("time", "level", "latitude", "longitude"):
-        if axtype in ax1.cf and axtype in ax2.cf and ax1.cf[axtype].name != ax2.cf[axtype].name:
-            return False
-
     # Check ids
     if check_id:
+        for axtype in ("time", "level", "latitude", "longitude"):
+            if axtype in ax1.cf and axtype in ax2.cf and ax1.cf[axtype].name != ax2.cf[axtype].name:
+                return False
+
         if ax1.name != ax2.name: return False
 
     # Check units
-- 
2.43.0


From a4ce5b41d4182421974f287ba4271f6fbcf0d7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 49/67] fix: names NetCDF does not allow are made safe when
 converting from NASA Ames

property=P17
---
 nappy/nc_interface/na_to_xarray.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 61d498a..04dc80c 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -35,7 +35,7 @@ hp = header_partitions
 
 
 # Define global variables
-safe_nc_id = re.compile(r"[\/\s\[\(\)\]\=\+\-\?\#\~\@\&\$\%\!\*\{\}\^]+")
+safe_nc_id = re.compile(r"""[\/\s\[\(\)\]\=\+\-\?\#\~\@\&\$\%\!\*\{\}\^]+|^[,.:;<>|`'"\\]""")
 time_units_pattn = re.compile(r"\w+\s+since\s+\d{1,4}-\d{1,2}-\d{1,2}(\s+\d+:\d+:\d+)?")
 max_id_length = 64
 special_comment_known_strings = (hp["sc_start"], hp["sc_end"], hp["addl_vatts"],
@@ -286,7 +286,7 @@ class NADictToXarrayObjects:
         if units:   
             var.attrs["units"] =units
     
-        if len(var_name) < max_id_length:
+        if 0 < len(var_name) < max_id_length:
             var_name = safe_nc_id.sub("_", var_name).lower()
         else:
             var_name = "naVariable_%s" % (var_number)
@@ -365,7 +365,7 @@ class NADictToXarrayObjects:
         if units:   
             var.attrs["units"] = units
 
-        if len(var_name) < max_id_length:
+        if 0 < len(var_name) < max_id_length:
             var_name = safe_nc_id.sub("_", var_name).lower()
         else:
             var_name = f"naAuxVariable_{avar_number}"
@@ -415,7 +415,7 @@ class NADictToXarrayObjects:
         if units:   
              axis.attrs["units"] = units
 
-        if len(var_name) < max_id_length:
+        if 0 < len(var_name) < max_id_length:
             axis.name = safe_nc_id.sub("_", var_name).lower()
         else:
             axis.name = f"naIndVariable_{ivar_number}"
-- 
2.43.0


From 965af0eef25a8ba5f740d0e6d2085a2e9db310aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 50/67] fix: auxiliary variables with long names can be renamed

property=P20
---
 nappy/nc_interface/na_to_xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 04dc80c..e1fccf2 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -371,8 +371,8 @@ class NADictToXarrayObjects:
             var_name = f"naAuxVariable_{avar_number}"
 
         # Check if mapping provided for renaming this variable
-        if var_name in self.rename_variables.keys():
-            var_name = self.rename_variables[var_name]
+        if var_name.lower() in self.rename_variables.keys():
+            var_name = self.rename_variables[var_name.lower()]
 
         var.attrs["long_name"] = var.attrs["title"] = var_name
         var.name = nappy.utils.common_utils.safe_name(var_name)
-- 
2.43.0


From 00432995920d885b5fd3ce26d7ea78dc5fbc92b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 51/67] fix: single precision missing values are written in
 full, as they are in the data

property=P18
---
 nappy/nc_interface/na_content_collector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 75da5e5..2fb02e2 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -325,6 +325,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             else:
                 item = item[0]
 
+        # Single precision values must be shown with the same digits as the data
+        if isinstance(item, np.floating):
+            item = float(item)
+
         return item
 
     def _defineNAVars(self, vars):
-- 
2.43.0


From ad649595b165e20943de62dd1fc033d5feca0c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 52/67] fix: a time axis without recognised units keeps its
 name and units

property=P19
---
 nappy/nc_interface/na_to_xarray.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index e1fccf2..79c0f04 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -448,9 +448,12 @@ class NADictToXarrayObjects:
                 self.output_message.append(message)
                 self.time_units = time_units_input
 
-            axis.attrs["units"] = self.time_units
-            axis.encoding["units"] = self.time_units
-            axis.attrs["long_name"] = f"time ({self.time_units})"
+            # Keep the given name and units if there are no better ones
+            if self.time_units:
+                axis.attrs["units"] = self.time_units
+                axis.encoding["units"] = self.time_units
+                axis.attrs["long_name"] = f"time ({self.time_units})"
+
             axis.name = "time"
 
         axis.attrs["name"] = axis.name
-- 
2.43.0


From d3a8f9e6aabb87fe04a1c2d0f3e7ba2453787dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 53/67] fix: valid values that only differ from the missing one
 by rounding errors once scaled are kept

property=P19
---
 nappy/nc_interface/na_to_xarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 79c0f04..4a13615 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -252,7 +252,8 @@ class NADictToXarrayObjects:
         is_missing = array == miss
         scaled = array * scal
 
-        if np.any(scaled[~is_missing] == miss):
+        # (allowing for rounding errors, that are lost when the values are written as text)
+        if np.isclose(scaled[~is_missing], miss, rtol=1e-9, atol=0).any():
             miss = miss * scal
 
         return np.where(is_missing, miss, scaled), miss
-- 
2.43.0


From 92f7024fb75a46e075c955def8c0ff58e4b3d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 54/67] fix: numeric institution, comment and date attributes
 do not break the conversion

property=P24
---
 nappy/nc_interface/na_content_collector.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 2fb02e2..682970b 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -548,6 +548,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     
                 elif key == "institution":
                     # If fields came from NA then extract appropriate fields.
+                    value = str(value)
                     match = re.match(r"(.*)\s+\(ONAME from NASA Ames file\);\s+(.*)\s+\(ORG from NASA Ames file\)\.", 
                              value)
                     if match:
@@ -563,7 +564,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
                 elif key == "comment":
                     # Need to work out if they are actually comments from NASA Ames in the first place
-                    comment_lines = value.split("\n")
+                    comment_lines = str(value).split("\n")
                     normal_comments = []
                     normal_comm_flag = None
 
@@ -600,7 +601,12 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     ]  
 
                 elif key == "first_valid_date_of_data":
-                    self.na_dict["DATE"] = value
+                    # Only a date if it is the three integers that DATE is made of
+                    if isinstance(value, (list, tuple, np.ndarray)) and len(value) == 3 and \
+                            all(isinstance(item, (int, np.integer)) for item in value):
+                        self.na_dict["DATE"] = [int(item) for item in value]
+                    else:
+                        self.extra_comments[2].append(f"{key}:   {value}")
 
                 elif key in ("Conventions", "references"):
                     self.extra_comments[2].append(f"{key}:   {value}")
-- 
2.43.0


From 4aaa9a52f0eaa4b5a9b9e067243498318b697340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 55/67] fix: nc2csv refuses a delimiter given together with its
 option letter

property=P23
---
 nappy/script/nc2csv.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index 83ba819..ac37db0 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -65,7 +65,6 @@ def parseArgs(args):
     a["var_ids"] = None
     a["requested_ffi"] = None
     a["float_format"] = nappy.default_float_format
-    a["delimiter"] = nappy.default_delimiter
     a["size_limit"] = None
     a["exclude_vars"] = []
     a["na_items_to_override"] = {}
@@ -75,7 +74,7 @@ def parseArgs(args):
     a["annotation"] = False
 
     try:
-        (arg_list, dummy) = getopt.getopt(args, "i:o:v:f:d:l:e:",
+        (arg_list, dummy) = getopt.getopt(args, "i:o:v:f:l:e:",
                               ["ffi=", "overwrite-metadata=", "names-only",
                                "no-header", "annotated"])
     except getopt.GetoptError as e:
@@ -92,8 +91,6 @@ def parseArgs(args):
             a["requested_ffi"] = int(value)
         elif arg == "-f":
             a["float_format"] = value
-        elif arg == "-d":
-            a["delimiter"] = value
         elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
@@ -129,7 +126,6 @@ def nc2csv(args=None):
         exitNicely("nc2csv.py does not accept the -d argument as the delimiter is fixed as a comma, try using nc2na.py instead.")
 
     arg_dict = parseArgs(args)
-    del arg_dict["delimiter"]
     arg_dict["csv_file"] = arg_dict.pop("na_file")
     csv_files = nappy.convertNCToCSV(**arg_dict)
 
-- 
2.43.0


From 09d81ae2b66d6b0cbb90e693f55e52f062613b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 56/67] fix: annotate lines as the file has them, whatever
 characters they hold

annotateLines() used str.splitlines(), which also breaks lines at form
feeds, vertical tabs and Unicode separators, so an annotation was written
into the middle of such a line.

property=P08
---
 nappy/utils/common_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 79efe9a..7df2473 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -217,7 +217,8 @@ def annotateLines(item_name, annotate, delimiter, lines):
     Takes item_name to look up, delimiter and item to render and returns full line.
     """
 
-    split_lines = lines.splitlines(1)
+    # As in a file, only a newline ends a line (splitlines() has many others)
+    split_lines = StringIO(lines).readlines()
     output = ""
 
     count = 1
-- 
2.43.0


From 6d71100cd62ca2bf040596cfec8bbe225be5e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 57/67] fix: keep integer attributes that need more than 32
 bits when writing NetCDF

property=P20
---
 nappy/nc_interface/na_to_nc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index f276d37..ab9b530 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -69,7 +69,8 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         returns them.
         """
         def to_np_int(_value):
-            return np.int32(_value)
+            # (leave those that need more bits)
+            return np.int32(_value) if -2**31 <= _value < 2**31 else _value
 
         value = dct.get(key)
 
-- 
2.43.0


From 311cdf693f676b73875aa8bd8629b6db59955935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:17 +0000
Subject: [PATCH 58/67] fix: keep the increment of an FFI 1020 axis with
 inexact intervals

The axis was accepted as uniformly spaced, but its DX was written as 0
when float intervals differed in their last digits, which leaves the
implied values of the independent variable undefined.

property=P11
---
 nappy/nc_interface/na_content_collector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 682970b..bd1c079 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -375,9 +375,11 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
                     self.na_dict["DX"] = [incr]
                     # Now overwrite it as zero if non-uniform interval in axis
+                    # (FFI 1020 is only chosen for a uniform axis, and cannot do
+                    # without an increment: its values are implied by it)
 
                     for i in range(1, len(self.ax0)):
-                        if xarray_utils.get_interval(self.ax0, i-1, i) != incr:
+                        if self.na_dict["FFI"] != 1020 and xarray_utils.get_interval(self.ax0, i-1, i) != incr:
                             self.na_dict["DX"] = [0]
                             break
 
-- 
2.43.0


From 5c4f93a8ae6edb86c9d3b8a171623a25f1b7ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 59/67] fix: write variables that share their name with a
 single-valued one or a dimension

A variable was taken for the single-valued variable, or for the axis, of
the same name and left out of the output. Single-valued variables are
called by their long name, so that names often coincide.

property=P09
---
 nappy/nc_interface/na_content_collector.py | 2 +-
 nappy/nc_interface/xarray_to_na.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index bd1c079..c2587f6 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -181,7 +181,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         for var in rest_of_the_vars:
 
-            if var.name in self.rank_zero_var_ids: continue
+            if len(var.shape) == 0: continue
 
             # What to do with variables that have different number of dimensions or different shape
             if len(var.shape) != number_of_dims or var.shape != shape: 
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 6595ca1..b3b16c9 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -175,7 +175,7 @@ class XarrayToNA:
         for var in variables:
 
             # Do not define dimensions (coordinate variables) as variables
-            if var.name in dim_names:
+            if var.name in dim_names and var.dims == (var.name,):
                 continue
 
             var_metadata = var.attrs
-- 
2.43.0


From 25f7d8ab232c471f034d7dc28bfa16629d40c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 60/67] fix: write character values of FFI 2160 completely

Commas at their end were removed along with the delimiters.

property=P01
---
 nappy/na_file/na_file_2160.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 892508b..86ea8f7 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -138,8 +138,9 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         for m in range(len(self.X)):
 
             # Write Independent variable mark and auxiliary variables
+            # (text is written as it is)
             var_string = "%s" % self.X[m][0]
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string))
             var_string = ""
 
             for a in range(self.NAUXV - self.NAUXC):
@@ -148,8 +149,8 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
 
             for a in range(self.NAUXC):
-                var_string = (("%s" + self.delimiter) % self.A[(self.NAUXV - self.NAUXC) + a][m])
-                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+                var_string = "%s" % self.A[(self.NAUXV - self.NAUXC) + a][m]
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string))
 
             # Write second independant variable and dependant variables
             for p in range(self.NX[m]):
-- 
2.43.0


From 7e0143c9ef694c9136b36c8431e64e3a445a9141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 61/67] fix: identify axes whatever other coordinates are
 attached to them

A variable listed as a coordinate of others, that also looks like a time
(or latitude, ...) by its attributes, made every conversion fail because
the CF conventions then match more than one coordinate. Comparing axes by
the attached coordinates told identical axes apart.

property=P22
---
 nappy/nc_interface/xarray_utils.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 37387ac..cb1746b 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -136,10 +136,6 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     """
     # Check ids
     if check_id:
-        for axtype in ("time", "level", "latitude", "longitude"):
-            if axtype in ax1.cf and axtype in ax2.cf and ax1.cf[axtype].name != ax2.cf[axtype].name:
-                return False
-
         if ax1.name != ax2.name: return False
 
     # Check units
@@ -178,6 +174,14 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     return True
 
 
+def _matches_cf(coord, key):
+    """
+    Whether the CF conventions identify a coordinate as `key`, e.g. "time". (Other
+    coordinates attached to it may match as well.)
+    """
+    return coord.name in coord.cf.coordinates.get(key, []) + coord.cf.standard_names.get(key, [])
+
+
 def is_latitude(coord):
     """
     Determines if a coordinate is latitude.
@@ -186,7 +190,7 @@ def is_latitude(coord):
     :return: (bool) True if the coordinate is latitude.
     """
 
-    if "latitude" in coord.cf and coord.cf["latitude"].name == coord.name:
+    if _matches_cf(coord, "latitude"):
         return True
 
     if coord.attrs.get("standard_name", None) == "latitude":
@@ -202,7 +206,7 @@ def is_longitude(coord):
     :param coord: coordinate of xarray dataset e.g. coord = ds.coords[coord_id]
     :return: (bool) True if the coordinate is longitude.
     """
-    if "longitude" in coord.cf and coord.cf["longitude"].name == coord.name:
+    if _matches_cf(coord, "longitude"):
         return True
 
     if coord.attrs.get("standard_name", None) == "longitude":
@@ -218,7 +222,7 @@ def is_level(coord):
     :param coord: coordinate of xarray dataset e.g. coord = ds.coords[coord_id]
     :return: (bool) True if the coordinate is level.
     """
-    if "vertical" in coord.cf and coord.cf["vertical"].name == coord.name:
+    if _matches_cf(coord, "vertical"):
         return True
 
     if hasattr(coord, "positive"):
@@ -240,7 +244,7 @@ def is_time(coord, test_by_values=False):
     :test_by_values: boolean to decide whether to identify by checking first value type
     :return: (bool) True if the coordinate is time.
     """
-    if "time" in coord.cf and coord.cf["time"].name == coord.name:
+    if _matches_cf(coord, "time"):
         return True
 
     if np.issubdtype(coord.dtype, np.datetime64):
-- 
2.43.0


From 0b9015a25ce17f4bd6632e5c4db5ff73edb12e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 62/67] fix: give different axes different names in NetCDF

property=P17
---
 nappy/nc_interface/na_to_xarray.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 4a13615..9d75bf4 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -457,6 +457,14 @@ class NADictToXarrayObjects:
 
             axis.name = "time"
 
+        # Different axes need different names
+        used_names = [xr_axis.name for xr_axis in self.xr_axes]
+        base_name, count = axis.name, 1
+
+        while axis.name in used_names:
+            count += 1
+            axis.name = f"{base_name}_{count}"
+
         axis.attrs["name"] = axis.name
 
         # Rename dimension of axis
-- 
2.43.0


From b7d810c7c405d49d7659e854353e21c68b81ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:10 +0000
Subject: [PATCH 63/67] fix: FFI 2310 marks without points are written without
 an empty line

property=P01
---
 nappy/na_file/na_file_2310.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 141aca2..6eb6437 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -120,4 +120,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
             for n in range(self.NV):
                 for p in range(self.NX[m]):
                     var_string = var_string + (self.format %self.V[n][m][p])
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+
+            # A mark without any points has no such line (it would be an empty one)
+            if var_string:
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
-- 
2.43.0


From 11e3622a0204742651f8c0b801cc91528a20c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 64/67] fix: a failed write leaves no part of a file

property=P05
---
 nappy/na_file/na_file.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 95a9084..6ed9484 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -115,16 +115,23 @@ class NAFile(nappy.na_file.na_core.NACore):
         if not self.is_open:
             raise Exception("WARNING: NASA Ames file instance is closed and cannot be written to.")
    
-        # Parse na_dict then write header and data
-        self._parseDictionary()
-        self.header = StringIO()
+        try:
+            # Parse na_dict then write header and data
+            self._parseDictionary()
+            self.header = StringIO()
+
+            if not no_header:
+                self.writeHeader()
+
+            self.writeData()
+            self.file.flush()
+        except Exception:
+            # Leave no part of a file that could not be completed
+            if self.file.seekable():
+                self.file.seek(0)
+                self.file.truncate()
+            raise
 
-        if not no_header:
-            self.writeHeader()
-
-        self.writeData()
-        self.file.flush()
-        
         # Set flag to make sure cannot try and write more data
         self.data_written = True
          
-- 
2.43.0


From 3edcc3c187462780d36afcbbad4e12fac410bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:38 +0000
Subject: [PATCH 65/67] fix: converting from an open file leaves the file
 object as it is

property=P06
---
 nappy/nc_interface/na_to_xarray.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 9d75bf4..10d9b5f 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -12,6 +12,7 @@ by NAToNC classes.
 """
 
 # Imports from python standard library
+import copy
 import sys
 import re
 import time
@@ -397,7 +398,11 @@ class NADictToXarrayObjects:
         """
         Creates an Xarray axis from a NASA Ames independent variable.
         """
+        # The values implied by the file are only wanted here: leave the file object as it is
+        (given_X, was_normalized) = (self.na_file_obj.X, self.na_file_obj._normalized_X)
+
         if not self.na_file_obj._normalized_X:
+            self.na_file_obj.X = copy.deepcopy(given_X)
             self.na_file_obj._normalizeIndVars()
 
         if self.na_file_obj.NIV == 1:
@@ -405,6 +410,8 @@ class NADictToXarrayObjects:
         else:
             array = self.na_file_obj.X[ivar_number]
 
+        (self.na_file_obj.X, self.na_file_obj._normalized_X) = (given_X, was_normalized)
+
         axis_name = self.na_file_obj.XNAME[ivar_number]
 
         (var_name, units) = self.na_file_obj.getIndependentVariable(ivar_number)
-- 
2.43.0


From 38bfc204f41542f7e67e16ac6ab3a369a372d82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:04 +0000
Subject: [PATCH 66/67] fix: increments of axes of unsigned or small integers
 do not wrap around

property=P11
---
 nappy/nc_interface/xarray_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index cb1746b..2edf8c3 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -317,7 +317,13 @@ def get_interval(da, indx1, indx2, handle_datetimes=True):
     else:
         arr = da.data
 
-    return arr[indx2] - arr[indx1]
+    first, second = arr[indx1], arr[indx2]
+
+    # Unsigned and small integers would wrap around
+    if isinstance(first, np.integer):
+        first, second = int(first), int(second)
+
+    return second - first
 
 
 def getArrayAsList(da, missing_value=None, handle_datetimes=True):
-- 
2.43.0


From 4d3ba74763fe2211681eada4be09371886d512e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:52 +0000
Subject: [PATCH 67/67] fix: numbers that are infinite or not numbers are not
 approximately equal to others

property=P15
---
 nappy/utils/compare_na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index 89d457f..22c6f8f 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -127,7 +127,7 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
                             divided = a/b
                             if divided < 1:
                                 divided = b/a
-                            if abs(1 - divided) > equality_threshold:
+                            if not abs(1 - divided) <= equality_threshold:  # (nor is it if not a number)
                                 same = False
                                 break  
                         else: 
-- 
2.43.0

