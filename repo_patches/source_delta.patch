From 827672adb354be2dad706659d1a5f036ea0a6621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 01/58] fix: do not reverse the caller's axis lists when
 writing FFI 2010 family files

---
 nappy/na_file/na_file_2010.py | 5 ++---
 nappy/na_file/na_file_2110.py | 4 ++--
 nappy/na_file/na_file_2160.py | 4 ++--
 nappy/na_file/na_file_2310.py | 4 ++--
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 333ea49..4c572f2 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -56,10 +56,10 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         Writes FFI-specific header section.
         """        
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        NX = self.NX
+        NX = self.NX[:]
         NX.reverse()
         self.header.write(wrapLine("NX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 2) + "%s\n") % tuple(NX)))
         NXDEF = self.NXDEF[:]
@@ -133,7 +133,6 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         This method can be called directly by the user.
         """        
         # Set up unbounded IV loop
-        self.NX.reverse()
         for m in range(len(self.X[0])):
 
             # Write unbounded independent variable mark and auxiliary variables
diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index 8ef803b..d04a378 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -43,10 +43,10 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         Writes FFI-specific header section.
         """
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index f6121e7..408b8e0 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -49,11 +49,11 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write("\n")
         
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % tuple(DX)))
         self.header.write(wrapLine("LENX", self.annotation, self.delimiter, "%s\n" % self.LENX))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 3dfdd22..a26603b 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -44,9 +44,9 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         """
         self._writeCommonHeader()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % self.DX[0]))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
-        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(self.XNAME)))
+        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
         self._writeAuxVariablesHeaderSection()
         self._writeComments()
-- 
2.43.0


From 3df3b1e813e0ea6ed4e064aeca4cfc02ad15e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 02/58] fix: reading the data section again no longer
 accumulates axis values

---
 nappy/na_file/na_file_2010.py |  1 +
 nappy/na_file/na_file_2310.py | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 4c572f2..129c97f 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -91,6 +91,7 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         """
         self.V = []
         self.A = []
+        self.X[0] = []
 
         # Create an array size to request using read routines
         self.arraySize = 1
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index a26603b..dc8f651 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -53,6 +53,14 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         self._fixHeaderLength()
         self.file.write(self.header.read())
 
+    def _setupArrays(self):
+        """
+        Sets up FFI-specific arrays to fill with data (lists of lists).
+        """
+        nappy.na_file.na_file_2110.NAFile2110._setupArrays(self)
+        # Keep only the interval from the header, the others come with the data
+        self.DX = self.DX[:1]
+
     def _readData1(self, datalines, ivar_count):
         """
         Reads first line/section of current block of data.
@@ -72,7 +80,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([aux[1]])
         self.NX.append(int(aux[0]))
-        self.DX.append(int(aux[2]))
+        self.DX.append(aux[2])
         return rtlines
    
     def _readData2(self, datalines, ivar_count):
-- 
2.43.0


From 6d43c3318fc9ad685757d649db12b6ece8052184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 03/58] fix: write FFI 2310 data as one record per variable

---
 nappy/na_file/na_file_2310.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index dc8f651..59ca82c 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -116,8 +116,9 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
 
             # Write second independant variable and dependant variables
-            var_string = ""
-            for p in range(self.NX[m]):
-                for n in range(self.NV):
+            # (one record of values along the second axis for each variable)
+            for n in range(self.NV):
+                var_string = ""
+                for p in range(self.NX[m]):
                     var_string = var_string + (self.format %self.V[n][m][p])
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
-- 
2.43.0


From 7eab6ea75872335aaf46fe840c8f0afdc888cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 04/58] fix: stripQuotes accepts empty and quote-only strings

---
 nappy/utils/common_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 64e13cc..ab1eae9 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -234,8 +234,8 @@ def annotateLine(item_name, annotate, delimiter, line, count=None):
 def stripQuotes(s):
     "Strips extra quotes"
     if type(s) != type("string"): s  = str(s)
-    if s[0] in ("'", '"'): s = s[1:]
-    if s[-1] in ("'", '"'): s = s[:-1]
+    if s[:1] in ("'", '"'): s = s[1:]
+    if s[-1:] in ("'", '"'): s = s[:-1]
     return s
 
 
-- 
2.43.0


From f426502efd8a7da663016b289822d6b0cba15cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 05/58] fix: read each bounded axis of FFI 3010/4010 with its
 own length

---
 nappy/na_file/na_file_2010.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 129c97f..ba3c94d 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -40,7 +40,8 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         self.NXDEF = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV - 1, int)
         self.NXDEF.reverse()  # Reverse because C-type array is least-changing first
         self.X = []
-        for i in range(self.NIV - 1):
+        # The lists are recorded in the order of the file, fastest varying first
+        for i in reversed(range(self.NIV - 1)):
             self.X.append(nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NXDEF[i], float))
         # Unbounded Independent variable should be first so insert empty list at start
         self.X.reverse()                 
-- 
2.43.0


From ee372e08996b3f66c1c3d4f00b4fad517b15ab9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 06/58] fix: reject overlong number records and stop at the end
 of the file

---
 nappy/utils/text_parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index 3150bf3..1c9fe8d 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -77,15 +77,18 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
             object = object[1:]
             items = rightStripCurlyBraces(nextitem).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            rtitems = rtitems + items
 
     else:
         while len(rtitems) < nitems:
-            items = rightStripCurlyBraces(object.readline()).strip().split()
+            line = object.readline()
+            if line == "":
+                raise Exception("End of file reached before the required number (" + str(nitems) + ") of items was found: \n" + str(lines))
+            items = rightStripCurlyBraces(line).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            rtitems = rtitems + items
 
-    if len(extras) > 0:
+    if len(rtitems) > nitems:
         raise Exception("Could not split " + str(len(lines)) + " lines exactly into required number (" + str(nitems) + ") of items: \n" + str(lines))
 
     if rttype is not str:
-- 
2.43.0


From 61aeeaa0d9a32c3a90a47481fbe8ee17fcfc028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 07/58] fix: a file ending inside the header is an error

---
 nappy/na_file/na_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 4ba54f0..34bb734 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -157,7 +157,10 @@ class NAFile(nappy.na_file.na_core.NACore):
         "Reads nlines lines from a file and returns them in a list."
         lines = []
         for i in range(nlines):
-            lines.append(self.file.readline().strip())
+            line = self.file.readline()
+            if line == "":
+                raise Exception("End of file reached in the header section.")
+            lines.append(line.strip())
         return lines
 
     def _checkForBlankLines(self, datalines):
-- 
2.43.0


From 782ee1b09af48959475359cb84143df4530bf5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 08/58] fix: expand the implied axis values of FFI 1020 files

---
 nappy/na_file/na_file_1020.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nappy/na_file/na_file_1020.py b/nappy/na_file/na_file_1020.py
index e338e2b..9ca5285 100644
--- a/nappy/na_file/na_file_1020.py
+++ b/nappy/na_file/na_file_1020.py
@@ -33,8 +33,8 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         self._normalized_X = False
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV, float)
-        if self.DX == 0:
-            raise "DX found to be zero (0). Not allowed for FFI 1020."
+        if self.DX[0] == 0:
+            raise Exception("DX found to be zero (0). Not allowed for FFI 1020.")
 
         self.NVPM = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
         self.XNAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NIV), self.NIV, str)
@@ -76,11 +76,11 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         """
         if self._normalized_X: return
         newX = []
-        for x in self.X[0]:
+        for x in self.X:
             for i in range(self.NVPM):
-                newX.append(x + (i * self.DX))
+                newX.append(x + (i * self.DX[0]))
 
-        self.X[0] = newX
+        self.X = newX
         self._normalized_X = True
 
     def writeData(self):										
-- 
2.43.0


From 24946c5dbbb754f15a88e6c1e944905900393f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 09/58] fix: expand the FFI 1020 axis also after the data
 section was read again

---
 nappy/na_file/na_file_1020.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nappy/na_file/na_file_1020.py b/nappy/na_file/na_file_1020.py
index 9ca5285..63c1877 100644
--- a/nappy/na_file/na_file_1020.py
+++ b/nappy/na_file/na_file_1020.py
@@ -56,6 +56,14 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         self._fixHeaderLength()
         self.file.write(self.header.read())
 
+    def _setupArrays(self):
+        """
+        Sets up FFI-specific arrays to fill with data (lists of lists).
+        """
+        nappy.na_file.na_file_1010.NAFile1010._setupArrays(self)
+        # The abbreviated axis is about to be read (again)
+        self._normalized_X = False
+
     def _readData2(self, datalines, ivar_count):
         """
         Reads second line/section (if used) of current block of data.
-- 
2.43.0


From b20cd702ab8d5216ab10c11228c26ca2fb5e8620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 10/58] fix: FFI 2160 character strings are whole lines and may
 be absent

---
 nappy/na_file/na_file.py      |  2 +-
 nappy/na_file/na_file_2160.py | 23 ++++++++++++-----------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 34bb734..ecdc091 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -274,7 +274,7 @@ class NAFile(nappy.na_file.na_core.NACore):
             self.LENA = nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXC, int)
             for i in range(nonCharAuxVars):
                 self.LENA.insert(0, None)
-            self.AMISS = self.AMISS + nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXC, str)    
+            self.AMISS = self.AMISS + nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NAUXC), self.NAUXC, str)
             self.ANAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NAUXV), self.NAUXV, str)        
             
     def _readComments(self):
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 408b8e0..9d8afad 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -33,7 +33,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), 1, float)
-        self.LENX = nappy.utils.text_parser.readItemFromLine(self.file.readline(), float)
+        self.LENX = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
         self.XNAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NIV), self.NIV, str)
         self.XNAME.reverse()  # Reverse because C-type array is least-changing first
         self._readVariablesHeaderSection()
@@ -74,10 +74,11 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
             line = (("%s" + self.delimiter) * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.AMISS[0:(self.NAUXV - self.NAUXC)])
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
-            self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
-            line = ("%s\n" * self.NAUXC) % tuple(self.AMISS[(self.NAUXV - self.NAUXC):])
-            self.header.write(wrapLines("AMISS", self.annotation, self.delimiter, line))
+            if self.NAUXC > 0:
+                line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
+                self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
+                line = ("%s\n" * self.NAUXC) % tuple(self.AMISS[(self.NAUXV - self.NAUXC):])
+                self.header.write(wrapLines("AMISS", self.annotation, self.delimiter, line))
             line = "%s\n" * self.NAUXV % tuple(self.ANAME)
             self.header.write(wrapLines("ANAME", self.annotation, self.delimiter, line))
 
@@ -101,9 +102,10 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         """      
         # Start with independent and Auxilliary vars
         # Get character string independent variable
-        (x1, datalines) = nappy.utils.text_parser.readItemsFromUnknownLines(datalines, 1, str)
+        x1 = nappy.utils.text_parser.readItemFromLine(datalines[0], str)
+        datalines = datalines[1:]
         self.X.append([])
-        self.X[ivar_count].append(x1[0])
+        self.X[ivar_count].append(x1)
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([])  
         
@@ -135,8 +137,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         for m in range(len(self.X)):
 
             # Write Independent variable mark and auxiliary variables
-            var_string = "%s" % self.X[m][0]
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % self.X[m][0]))
             var_string = ""
 
             for a in range(self.NAUXV - self.NAUXC):
@@ -145,8 +146,8 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
 
             for a in range(self.NAUXC):
-                var_string = (("%s" + self.delimiter) % self.A[(self.NAUXV - self.NAUXC) + a][m])
-                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+                var_string = self.A[(self.NAUXV - self.NAUXC) + a][m]
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string))
 
             # Write second independant variable and dependant variables
             for p in range(self.NX[m]):
-- 
2.43.0


From ecde9f5f9327cc4525baffc8ce8f919f85035eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 11/58] fix: FFI 2110/2310 records without values of the second
 axis

---
 nappy/na_file/na_file_2110.py | 5 ++++-
 nappy/na_file/na_file_2310.py | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index d04a378..fa8071e 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -87,7 +87,10 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         self.X[ivar_count].append(x)
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([])  
-        self.NX.append(int(aux[0]))
+        if aux[0] == self.AMISS[0]:
+            self.NX.append(0)   # Missing: there are no records of the second axis
+        else:
+            self.NX.append(int(aux[0]))
         return rtlines
 
     def _readData2(self, datalines, ivar_count):
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 59ca82c..c1491c1 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -79,7 +79,10 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
 
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([aux[1]])
-        self.NX.append(int(aux[0]))
+        if aux[0] == self.AMISS[0]:
+            self.NX.append(0)   # Missing: there are no records of the second axis
+        else:
+            self.NX.append(int(aux[0]))
         self.DX.append(aux[2])
         return rtlines
    
@@ -117,7 +120,9 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
 
             # Write second independant variable and dependant variables
             # (one record of values along the second axis for each variable)
+            # (the records are omitted if there are no values)
             for n in range(self.NV):
+                if self.NX[m] == 0: break
                 var_string = ""
                 for p in range(self.NX[m]):
                     var_string = var_string + (self.format %self.V[n][m][p])
-- 
2.43.0


From 83651cffad499fd3ca2ebff63b2ec62bc085d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 12/58] fix: readFFI works without ignored lines argument as
 documented

---
 nappy/utils/common_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index ab1eae9..385db04 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -32,7 +32,7 @@ def getNAFileClass(ffi):
     return eval("%s.%s" % (mod, cls))
    
 
-def readFFI(filename, ignore_header_lines):
+def readFFI(filename, ignore_header_lines=0):
     """
     Function to read the top line of a NASA Ames file to extract
     the File Format Index (FFI) and return it as an integer.
-- 
2.43.0


From e5fb34512a616696631c1889d02a75608d3844ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 13/58] fix: choose FFI 2010 and 2110 for two-axis contents

---
 nappy/utils/common_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 385db04..c7e711f 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -68,15 +68,15 @@ def chooseFFI(na_dict):
         if type(d["X"][0][0]) == type("string"):
             # 2160 - the  independent unbounded variable is a character string
             return 2160
-        elif type(d["X"][0][1]) == type([1,2]) and len(d["X"][0][1]) > 1:
+        elif len(d["X"][0]) < 2 or type(d["X"][0][1]) != type([1,2]):
+            # 2010 - Straightforward 2-D variables
+            return 2010
+        elif any(len(x[1]) > 1 for x in d["X"]):
             # 2110 - one independent variable changes length and the values are specified
             return 2110
-        elif type(d["X"][0][1]) == type([1,2]) and len(d["X"][0][1]) == 1:
+        else:
             # 2310 - one indepenent variable changes length but only the first value is specifically stated
             return 2310
-        else:            
-            # 2010 - Straightforward 2-D variables
-            return 2010
 
     elif d["NIV"] == 1:   # 1 independent variable 
         if "NAUXV" not in d:
-- 
2.43.0


From ae2bfb2b64e9319272031bd47c092daa94466e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 14/58] fix: convertNAToCSV honours the no_header option

---
 nappy/nappy_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 5a0692e..cee8ce2 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -231,7 +231,7 @@ def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
         csv_file = getFileNameWithNewExtension(na_file, "csv")
 
     fout = openNAFile(csv_file, "w", na_dict=na_dict)
-    fout.write(delimiter=",", annotation=annotation)
+    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
     fout.close()
     return True
 
-- 
2.43.0


From 3c74e0db54ce9ddb5813854d6a0e7f983bf29072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 15/58] fix: strip brace annotations that contain a caret

---
 nappy/utils/right_strip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/right_strip.py b/nappy/utils/right_strip.py
index cc2fb44..335177f 100644
--- a/nappy/utils/right_strip.py
+++ b/nappy/utils/right_strip.py
@@ -19,7 +19,7 @@ Out: Tout (C)
 
 import re
 
-rstrip_regex = re.compile(r"^(.+)\{[^{^}]*\}\s*$")
+rstrip_regex = re.compile(r"^(.+)\{[^{}]*\}\s*$")
 
 
 def rightStripCurlyBraces(line):
-- 
2.43.0


From b1829614c96f5925fb3bbf7f5d24c93826fef034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 16/58] fix: replace the extension when deriving a file name
 from another

---
 nappy/utils/common_utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index c7e711f..24d0c8e 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -13,6 +13,7 @@ Functions and classes commonly used in nappy.
 # Standard library imports
 from io import StringIO
 import logging
+import os
 
 # Imports from local package
 from nappy import __version__
@@ -98,12 +99,9 @@ def getFileNameWithNewExtension(input_file, format):
     (i) replacing initial extension if there is one, OR
     (ii) just appending new extension.
     """
-    base_name = input_file
-    last_four = base_name[-4:]
-    found = last_four.find(".")
-    if found > -1:
-        idx = len(base_name) + found
-        base_name = base_name[:idx]
+    (base_name, extension) = os.path.splitext(input_file)
+    if len(extension) > 4:    # Not an extension such as ".na" or ".csv"
+        base_name = input_file
     return base_name + "." + format
 
 
-- 
2.43.0


From 13bc7b96f85ad2a0db22c5484e470aac7e44d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 17/58] fix: axes that differ in any value are not identical

---
 nappy/nc_interface/xarray_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index cdea26d..0be07e6 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -141,7 +141,7 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     # Do different comparisons depending on 'is_subset' argument
     if is_subset == False:
         # Check lengths and values only
-        if (len(ax1) != len(ax2)) or all(ax1.data != ax2.data):
+        if (len(ax1) != len(ax2)) or any(ax1.data != ax2.data):
             return False
 
     else:
-- 
2.43.0


From 569079d32ef5f41432222798e084b5c4f013b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 18/58] fix: variables on every n-th axis value become
 auxiliary variables of FFI 1020

---
 nappy/nc_interface/na_content_collector.py | 52 +++++++++++++++++-----
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index e724573..545f2c1 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -193,19 +193,15 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 if not xarray_utils.areAxesIdentical(best_var_axes[0], first_axis):
 
                     # If not identical, then it might still qualify as an auxiliary every n time points - valid for 1020
-                    if len(var.shape) == 1:
-                        nvpm = xarray_utils.isAxisRegularlySpacedSubsetOf(first_axis, best_var_axes[0])
-
-                        # NVPM is the number of implied values which is equal to (len(ax2)/len(ax1))
-                        if nvpm:
-                            ffis_limited = [1020]
-                            self.na_dict["NVPM"] = nvpm
-                        else: # if returned False, i.e. not regular subset axis
-                            self.unused_vars.append(var)
-
-                    else:
+                    nvpm = self._getImpliedValueCount(first_axis, best_var_axes)
+
+                    # NVPM is the number of implied values which is equal to (len(ax2)/len(ax1))
+                    if nvpm and self.na_dict.get("NVPM", nvpm) == nvpm:
+                        ffis_limited = [1020]
+                        self.na_dict["NVPM"] = nvpm
+                        aux_vars_for_na.append(var)
+                    else: # if not regular subset axis (or not the same subset as before)
                         self.unused_vars.append(var)
-                        continue
 
                 else:
                     # This could be used as a standard auxiliary variable
@@ -239,6 +235,34 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         return vars_for_na, aux_vars_for_na
 
+    def _getImpliedValueCount(self, axis, best_var_axes):
+        """
+        Returns the number of values of the main axis per value of ``axis`` if
+        variables defined against ``axis`` can be auxiliary variables of an
+        FFI 1020 file, i.e. where only every n-th value of a single, evenly
+        spaced axis is recorded. Otherwise returns False.
+        """
+        if len(best_var_axes) != 1 or self.requested_ffi not in (None, 1020):
+            return False
+
+        main_axis = best_var_axes[0]
+        nvpm = xarray_utils.isAxisRegularlySpacedSubsetOf(axis, main_axis)
+
+        # Each recorded value must have (at least) one implied value
+        if not nvpm or nvpm < 2:
+            return False
+
+        # The implied values are calculated from a constant (non-zero) interval
+        interval = xarray_utils.get_interval(main_axis, 0, 1)
+        if interval == 0:
+            return False
+
+        for i in range(1, len(main_axis)):
+            if xarray_utils.get_interval(main_axis, i - 1, i) != interval:
+                return False
+
+        return nvpm
+
     def _reorderVarsIfPreviouslyNA(self, vars_for_na, aux_vars_for_na):
         """
         Re-order if they previously came from NASA Ames files (i.e. including the 
@@ -299,6 +323,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             else:
                 return self.requested_ffi
 
+        # Auxiliary variables at every n-th value can only be written to FFI 1020
+        if ffis_limited == [1020]:
+            return 1020
+
         # Base the sub-selection on number of dimensions
         if number_of_dims > 4:
             raise Exception("Cannot write variables defined against greater than 4 axes in NASA Ames format.")
-- 
2.43.0


From f5f6dea192e61a6b8bce604a5553bbcd40c4de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 19/58] fix: keep array variables named like a singleton

---
 nappy/nc_interface/na_content_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 545f2c1..3c0d953 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -179,7 +179,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         for var in rest_of_the_vars:
 
-            if var.name in self.rank_zero_var_ids: continue
+            # Singletons have been collected already
+            if len(var.shape) == 0: continue
 
             # What to do with variables that have different number of dimensions or different shape
             if len(var.shape) != number_of_dims or var.shape != shape: 
-- 
2.43.0


From c0504df65f889151d1af105c39aca94e946fead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 20/58] fix: keep all variables with the same or a large NASA
 Ames number

---
 nappy/nc_interface/na_content_collector.py | 46 ++++++----------------
 1 file changed, 11 insertions(+), 35 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 3c0d953..9648fba 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -270,43 +270,19 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         attribute 'nasa_ames_var_number'). Return re-ordered or unchanged pair of
         (vars_for_na, aux_vars_for_na).
         """
-        # First do the main variables
-        ordered_vars = [None] * 1000 # Make a long list to put vars in 
-
-        # Create a list of other variables to collect up any that are not labelled as nasa ames variables
-        other_vars = []
-        for var in vars_for_na:
-            if hasattr(var, "nasa_ames_var_number"):
-                ordered_vars[var.nasa_ames_var_number] = var
-            else:
-                other_vars.append(var)
-
-        # Remake vars_for_na now in new order and clean out any that are "None"
-        vars_for_na = []
-        for var in ordered_vars:
-            if var is not None: 
-                vars_for_na.append(var)
-
-        vars_for_na = vars_for_na + other_vars
-
-        # Now re-order the Auxiliary variables if they previously came from NASA 
-        ordered_aux_vars = [None] * 1000
-        other_aux_vars = []
-
-        for var in aux_vars_for_na:
-            if hasattr(var, "nasa_ames_aux_var_number"):
-                ordered_aux_vars[var.nasa_ames_aux_var_number] = var
-            else:
-                other_aux_vars.append(var)
+        vars_for_na = self._orderByNumber(vars_for_na, "nasa_ames_var_number")
+        aux_vars_for_na = self._orderByNumber(aux_vars_for_na, "nasa_ames_aux_var_number")
+        return (vars_for_na, aux_vars_for_na)
 
-        # Remake aux_vars_for_na now in order
-        aux_vars_for_na = []
-        for var in ordered_aux_vars:
-            if type(var) != type(None): 
-                aux_vars_for_na.append(var)
+    def _orderByNumber(self, variables, attribute):
+        """
+        Returns the variables that are numbered by ``attribute`` in the order
+        of their numbers, followed by all others in their given order.
+        """
+        numbered = [var for var in variables if attribute in var.attrs]
+        others = [var for var in variables if attribute not in var.attrs]
 
-        aux_vars_for_na = aux_vars_for_na + other_aux_vars
-        return (vars_for_na, aux_vars_for_na)
+        return sorted(numbered, key=lambda var: var.attrs[attribute]) + others
 
     def _decideFileFormatIndex(self, number_of_dims, aux_vars_for_na, ffis_limited=False):
         """
-- 
2.43.0


From 1945e011e2bd70ea6e7bb00fae60a522dcce3abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 21/58] fix: convert dates with the array's own time units

---
 nappy/nc_interface/xarray_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 0be07e6..9ce0379 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -286,8 +286,10 @@ def create_data_array(arr, name, coords, attrs, fill_value):
 
 
 def datetimes_to_nums(da):
-    units = da.time.encoding['units']
-    calendar = da.time.encoding.get('calendar', 'standard')
+    # The array's own units are used, otherwise those of its time axis
+    encoding = da.encoding if 'units' in da.encoding else da.time.encoding
+    units = encoding['units']
+    calendar = encoding.get('calendar', 'standard')
     arr = cftime.date2num(da.data, units, calendar=calendar)
     return arr
 
-- 
2.43.0


From 0f372feafc458015baa446d143622da2f7716bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 22/58] fix: evenly spaced axes are defined by their first
 value and interval

---
 nappy/nc_interface/na_content_collector.py | 28 ++++++++++++----------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 9648fba..b51f540 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -491,30 +491,32 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         self.na_dict["NX"].append(length)
         self.na_dict["XNAME"].append(xarray_utils.getBestName(axis))
 
+        values = xarray_utils.getArrayAsList(axis)
+
         # If only one item in axis values
         if length < 2:
             self.na_dict["DX"].append(0)
             self.na_dict["NXDEF"].append(length)
-            self.na_dict["X"].append(axis.data.tolist())        
+            self.na_dict["X"].append(values)
             return
 
-        incr = xarray_utils.get_interval(axis, 0, 1)
+        incr = values[1] - values[0]
 
         for i in range(1, length):
-            if (axis[i] - axis[i - 1]) != incr:
-                self.na_dict["DX"].append(0)
-                self.na_dict["NXDEF"].append(length)
-                self.na_dict["X"].append(axis.data.tolist())
+            if (values[i] - values[i - 1]) != incr:
+                incr = 0
                 break
 
-        else: # If did not break out of the loop
-            max_length = length
-            if length > 3: 
-                max_length = 3
+        self.na_dict["DX"].append(incr)
 
-            self.na_dict["DX"].append(incr)
-            self.na_dict["NXDEF"].append(max_length)
-            self.na_dict["X"].append(axis[:max_length])
+        if incr == 0:
+            # All values are recorded
+            self.na_dict["NXDEF"].append(length)
+            self.na_dict["X"].append(values)
+        else:
+            # The first value and the interval define all values
+            self.na_dict["NXDEF"].append(1)
+            self.na_dict["X"].append(values[:1])
 
     def _defineNAGlobals(self):
         """
-- 
2.43.0


From eff81b61065a98fc4dc78d5bf7f7ccf7010c6bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 23/58] fix: axes of FFI 2110 and 2310 are lists of numbers
 with their own intervals

---
 nappy/nc_interface/na_content_collector.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index b51f540..f324485 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -404,9 +404,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 if self.na_dict["FFI"] == 2110:
                     new_x = []
                     new_nx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
+                    ax1_values = self.na_dict["X"][0]
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
 
-                    for i in self.ax0[:]:
+                    for i in ax1_values:
                         new_x.append([i, ax2_values])
                         new_nx.append(len(ax2_values))
 
@@ -427,10 +428,15 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     new_x = []
                     new_nx = []
                     new_dx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
-                    incr = xarray_utils.get_interval(ax2_values, 0, 1)
+                    ax1_values = self.na_dict["X"][0]
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
 
-                    for i in self.ax0[:]:
+                    if len(ax2_values) > 1:
+                        incr = ax2_values[1] - ax2_values[0]
+                    else:
+                        incr = 0
+
+                    for i in ax1_values:
                         new_x.append([i, ax2_values])
                         new_nx.append(len(ax2_values))
                         new_dx.append(incr)
@@ -438,14 +444,14 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     # Re-assign to new lists
                     self.na_dict["NX"] = new_nx
                     self.na_dict["X"] = new_x
-                    self.na_dict["DX"] = new_dx
+                    self.na_dict["DX"] = self.na_dict["DX"][:1] + new_dx
 
                     # Now auxiliary variable info here with independent var info
                     # First three aux vars are NX, X0 and DX
                     self.na_dict["A"] = []
                     self.na_dict["A"].append(self.na_dict["NX"][:])
                     self.na_dict["A"].append([i[1][0] for i in self.na_dict["X"]])
-                    self.na_dict["A"].append(self.na_dict["DX"][:])
+                    self.na_dict["A"].append(new_dx[:])
 
                     ind_var_name = self.na_dict["XNAME"][0]
                     self.na_dict["ANAME"] = ["Number of '%s' values recorded in subsequent data records" % ind_var_name,
-- 
2.43.0


From a494a21a30f31d05853dc9fdc39576bb6c3ffde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 24/58] fix: keep numpy numbers of global attributes, not the
 structure of a previous file

---
 nappy/nc_interface/na_content_collector.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index f324485..e59a4f0 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -539,9 +539,15 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         self.extra_comments = [[], [], []]  # Normal comments, special comments, other comments
 
+        # Structure of the previous NASA Ames file, always defined by the new file
+        structure_items = ("FFI", "NLHEAD", "NVOL", "IVOL")
+
         for key, value in self.globals.items():
+            if local_nc_to_na_map.get(key) in structure_items:
+                continue
+
             if key != "first_valid_date_of_data" and \
-                    type(value) not in (str, int, float):
+                    not isinstance(value, (str, int, float, np.number)):
                 continue
 
             # Loop through keys of header/comment items to map
-- 
2.43.0


From 3d46f63c0949fa7e25a7fef17a5da3f15dcd7712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 25/58] fix: global attributes of unexpected type do not break
 the header

---
 nappy/nc_interface/na_content_collector.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index e59a4f0..0dedee8 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -550,6 +550,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     not isinstance(value, (str, int, float, np.number)):
                 continue
 
+            # Text items of the header may be given as numbers
+            if key in ("comment", "institution"):
+                value = str(value)
+
             # Loop through keys of header/comment items to map
             if key in local_nc_to_na_map:
                 if key == "history":
@@ -617,16 +621,22 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                         other_extra_comments
                     ]  
 
-                elif key == "first_valid_date_of_data":
+                elif key == "first_valid_date_of_data" and self._isDate(value):
                     self.na_dict["DATE"] = value
 
-                elif key in ("Conventions", "references"):
+                elif key in ("Conventions", "references", "first_valid_date_of_data"):
                     self.extra_comments[2].append(f"{key}:   {value}")
                 else:
                     self.na_dict[local_nc_to_na_map[key]] = value
             else:
                 self.extra_comments[2].append(f"{key}:   {value}")
 
+    def _isDate(self, value):
+        """
+        Returns True if value consists of the year, month and day of a NASA Ames date.
+        """
+        return not isinstance(value, str) and hasattr(value, "__len__") and len(value) == 3
+
     def _defineNAComments(self, normal_comments=None, special_comments=None):
         """
         Defines the Special and Normal comments sections in the NASA Ames file 
-- 
2.43.0


From 95634b26ed3ceb7192883b41dcf47ba0a050cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 26/58] fix: line ends of attribute texts do not break header
 lines

---
 nappy/nc_interface/na_content_collector.py | 39 +++++++++++++++-------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 0dedee8..3e2bef6 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -348,7 +348,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         self.na_dict["V"] = []
 
         for var in vars:
-            name = xarray_utils.getBestName(var)
+            name = self._asSingleLine(xarray_utils.getBestName(var))
             self.na_dict["VNAME"].append(name)
             miss = xarray_utils.getMissingValue(var)
             miss = self._resolve_float(miss)
@@ -370,7 +370,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 self.ax0 = xarray_utils.get_coord_by_index(var, 0)
 
                 self.na_dict["X"] = [xarray_utils.getArrayAsList(self.ax0)]
-                self.na_dict["XNAME"] = [xarray_utils.getBestName(self.ax0)]
+                self.na_dict["XNAME"] = [self._asSingleLine(xarray_utils.getBestName(self.ax0))]
 
                 if len(self.ax0) == 1:
                     self.na_dict["DX"] = [0]
@@ -474,7 +474,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 self.na_dict[item] = [] 
 
         for var in aux_vars:
-            name = xarray_utils.getBestName(var)
+            name = self._asSingleLine(xarray_utils.getBestName(var))
             self.na_dict["ANAME"].append(name)
             miss = xarray_utils.getMissingValue(var)
             miss = self._resolve_float(miss)
@@ -495,7 +495,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         length = len(axis)
 
         self.na_dict["NX"].append(length)
-        self.na_dict["XNAME"].append(xarray_utils.getBestName(axis))
+        self.na_dict["XNAME"].append(self._asSingleLine(xarray_utils.getBestName(axis)))
 
         values = xarray_utils.getArrayAsList(axis)
 
@@ -560,7 +560,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     time_string = time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(time.time()))
                     history = "History:  %s - Converted to NASA Ames format using nappy-%s.\n  %s" % \
                                                  (time_string, version, value)
-                    history = history.split("\n") 
+                    history = self._splitLines(history)
                     self.history = []
 
                     for h in history:
@@ -579,13 +579,12 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                         self.na_dict["ONAME"] = value
                         self.na_dict["ORG"] = value
 
-                    # NOTE: should probably do the following search and replace on all string lines
-                    self.na_dict["ONAME"] = self.na_dict["ONAME"].replace("\n", "  ")
-                    self.na_dict["ORG"] = self.na_dict["ORG"].replace("\n", "  ")
+                    self.na_dict["ONAME"] = self._asSingleLine(self.na_dict["ONAME"])
+                    self.na_dict["ORG"] = self._asSingleLine(self.na_dict["ORG"])
 
                 elif key == "comment":
                     # Need to work out if they are actually comments from NASA Ames in the first place
-                    comment_lines = value.split("\n")
+                    comment_lines = self._splitLines(value)
                     normal_comments = []
                     normal_comm_flag = None
 
@@ -627,10 +626,26 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 elif key in ("Conventions", "references", "first_valid_date_of_data"):
                     self.extra_comments[2].append(f"{key}:   {value}")
                 else:
-                    self.na_dict[local_nc_to_na_map[key]] = value
+                    self.na_dict[local_nc_to_na_map[key]] = self._asSingleLine(value)
             else:
                 self.extra_comments[2].append(f"{key}:   {value}")
 
+    def _splitLines(self, text):
+        """
+        Returns the list of lines of a text, whichever line ends it uses.
+        """
+        return text.replace("\r\n", "\n").replace("\r", "\n").split("\n")
+
+    def _asSingleLine(self, value):
+        """
+        Returns a text with its line ends replaced by spaces, as each header item
+        occupies exactly one line. Any other value is returned unchanged.
+        """
+        if not isinstance(value, str):
+            return value
+
+        return "  ".join(self._splitLines(value))
+
     def _isDate(self, value):
         """
         Returns True if value consists of the year, month and day of a NASA Ames date.
@@ -752,7 +767,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for c in NCOM:
             if c.strip() not in ("", " ", "  "):
                 # Replace new lines within one attribute with a newline and tab so easier to read
-                lines = c.split("\n")
+                lines = self._splitLines(c)
                 for line in lines:
                     if line != lines[0]: 
                         line = "  " + line
@@ -762,7 +777,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for c in SCOM:
             if c.strip() not in ("", " ", "  "):
                 # Replace new lines within one attribute with a newline and tab so easier to read
-                lines = c.split("\n")
+                lines = self._splitLines(c)
 
                 for line in lines:
                     if line != lines[0]: 
-- 
2.43.0


From 92db31a6f1e23bdeb2749a8fcf8d62e74acead3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 27/58] fix: keep singletons and the attributes of all
 variables in the comments

---
 nappy/nc_interface/na_content_collector.py | 54 ++++++++--------------
 1 file changed, 20 insertions(+), 34 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 3e2bef6..8d8883a 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -92,19 +92,19 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for v in self.vars: 
             log.debug(f"\t{v.name}, {v.shape}, {v.dims}")
  
-        (self.ordered_vars, aux_vars) = self._analyseVariables()
+        (self.ordered_vars, self.aux_vars) = self._analyseVariables()
      
         if self.ordered_vars == []:
             log.warn("No NASA Ames content created.")
             self.unused_vars = []
         else:
             self.var_ids = [[var.name for var in self.ordered_vars],
-                            [var.name for var in aux_vars], 
+                            [var.name for var in self.aux_vars], 
                             self.rank_zero_var_ids]
 
             self.na_dict["NLHEAD"] = -999
             self._defineNAVars(self.ordered_vars)
-            self._defineNAAuxVars(aux_vars)
+            self._defineNAAuxVars(self.aux_vars)
             self._defineNAGlobals()
             self._defineNAComments()
             self._defineGeneralHeader()
@@ -692,23 +692,11 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             NCOM.append(hp["nc_end"])
             NCOM.append(hp["data_next"])
 
-        spec_comm_flag = None
-        # Start with special_comments added in
-        SCOM = []
-
         # Uses first item in self.extra_comments to start SCOM
-        special_comments = special_comments + self.extra_comments[0]
-
-        if len(special_comments) > 0: 
-            SCOM = [hp["sc_start"]]
-            spec_comm_flag = 1
-
-        for scom in special_comments:
-            SCOM.append(scom)
+        SCOM = special_comments + self.extra_comments[0]
 
         used_var_atts = ("id",  "missing_value", "fill_value", 
                    "nasa_ames_var_number", "nasa_ames_aux_var_number")
-        var_comm_flag = None
 
         # Create a string for the Special comments to hold rank-zero vars
         rank_zero_vars_string = []
@@ -726,9 +714,12 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             rank_zero_vars_string.insert(0, hp["sing_start"])
             rank_zero_vars_string.append(hp["sing_end"])
 
-        # Loop through variables and add 
-        for var in self.ordered_vars:
-            varflag = "unused"
+        SCOM.extend(rank_zero_vars_string)
+
+        # Loop through variables and add their attributes
+        var_atts_strings = []
+
+        for var in self.ordered_vars + self.aux_vars:
             var_name_written = False
 
             name = xarray_utils.getBestName(var)
@@ -738,26 +729,21 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     value = value[0]
 
                 if isinstance(value, str) or np.isscalar(value) and scom not in used_var_atts:
-                    if varflag == "unused":
-                        if var_comm_flag == None:
-                            var_comm_flag = 1
-
-                    if spec_comm_flag == None:
-                        SCOM = [hp["sc_start"]] + rank_zero_vars_string
-                        SCOM.append(hp["addl_vatts"])
-                        SCOM.append(hp["ncatts_start"])
-                        varflag = "using" 
-                        spec_comm_flag = 1
-
                     if not var_name_written:
-                        SCOM.append("  Variable %s: %s" % (var.name, name))
+                        var_atts_strings.append("  Variable %s: %s" % (var.name, name))
                         var_name_written = True
 
-                    SCOM.append("    %s = %s" % (scom, value))
+                    var_atts_strings.append("    %s = %s" % (scom, value))
 
-        if var_comm_flag == 1:  
+        if len(var_atts_strings) > 0:
+            SCOM.append(hp["addl_vatts"])
+            SCOM.append(hp["ncatts_start"])
+            SCOM.extend(var_atts_strings)
             SCOM.append(hp["ncatts_end"])
-        if spec_comm_flag == 1:
+
+        # When SCOM has been defined then surround it in some extras
+        if len(SCOM) > 0:
+            SCOM.insert(0, hp["sc_start"])
             SCOM.append(hp["sc_end"])
 
         # Strip out empty lines (or returns)
-- 
2.43.0


From 469769e09da0437ed9adf6bec213f4b7b44c81dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 28/58] fix: files split by size limit are named once, keep
 their extension and honour no_header

---
 nappy/nc_interface/xarray_to_na.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 246bb34..589d1b4 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -11,6 +11,7 @@ Holds the class XarrayToNA that converts a set of Xarray variables (DataArrays)
 """
 
 # Imports from python standard library
+import os
 import sys
 import logging
 
@@ -313,7 +314,8 @@ class XarrayToNA:
             if size_limit is not None and (this_na_dict["FFI"] == 1001 and len(this_na_dict["V"][0]) > size_limit):
                 files_written = self._writeNAFileSubsetsWithinSizeLimit(this_na_dict, file_name, delimiter=delimiter,
                                                                         float_format=float_format, size_limit=size_limit,
-                                                                        annotation=annotation)
+                                                                        annotation=annotation,
+                                                                        no_header=no_header)
                 file_list.extend(files_written)
 
             # If not having to split file into multiple outputs (normal condition)
@@ -365,13 +367,14 @@ class XarrayToNA:
         return self.output_message
 
     def _writeNAFileSubsetsWithinSizeLimit(self, this_na_dict, file_name, delimiter, 
-                      float_format, size_limit, annotation):
+                      float_format, size_limit, annotation, no_header=False):
         """
         If self.size_limit is specified and FFI is 1001 we can chunk the output into 
         different files in a NASA Ames compliant way. 
         Returns list of file names of outputs written.
         """
         file_names = []
+        (base_name, extension) = os.path.splitext(file_name)
         var_list = this_na_dict["V"]
         array_length = len(var_list[0])
         nvol_info = divmod(array_length, size_limit)
@@ -401,12 +404,12 @@ class XarrayToNA:
             na_dict_copy = modifyNADictCopy(this_na_dict, current_block, 
                                                                       start, end, ivol, nvol)
             # Append a letter to the file name for writing this block to
-            file_name_plus_letter = f"{file_name[:-3]}-{ivol:03d}.na"
-            file_names.append(file_name_plus_letter)
+            file_name_plus_letter = f"{base_name}-{ivol:03d}{extension}"
 
             # Write data to output file
             x = nappy.openNAFile(file_name_plus_letter, 'w', na_dict_copy)
-            x.write(delimiter=delimiter, float_format=float_format, annotation=annotation)
+            x.write(delimiter=delimiter, float_format=float_format,
+                    no_header=no_header, annotation=annotation)
             x.close()
 
             msg = "\nOutput files split on size limit: %s\nFilename used: %s" % (size_limit, file_name_plus_letter)
-- 
2.43.0


From 668c441527e01bbbafdef7403d62d1503db6beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 29/58] fix: number output files also without an extension or
 below directories with a dot

---
 nappy/nc_interface/xarray_to_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 589d1b4..3c045a7 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -212,7 +212,7 @@ class XarrayToNA:
                 base_name = base_name[:-3]
             na_file = base_name + ".na"
 
-        name_parts = na_file.split(".")
+        (base_name, extension) = os.path.splitext(na_file)
 
         # Now, create some valid file names
         if len(self.na_dict_list) == 1:
@@ -222,7 +222,7 @@ class XarrayToNA:
 
             for file_counter in range(1, len(self.na_dict_list) + 1):
                 suffix = f"_{file_counter}"
-                new_name = (".".join(name_parts[:-1])) + suffix + "." + name_parts[-1]
+                new_name = base_name + suffix + extension
                 file_names.append(new_name)
 	    
         return file_names
-- 
2.43.0


From 0d88204d778eb275ea88744f655690114c19539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 30/58] fix: writing converted contents again does not repeat
 comments and column headers

---
 nappy/nc_interface/xarray_to_na.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 3c045a7..2ba1d61 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -268,7 +268,9 @@ class XarrayToNA:
             self.output_message.append(msg)
 
             # Set up current na dict
+            # (Take a copy - so that writing again starts from the same content)
             (this_na_dict, vars_to_write) = na_dict_and_var_ids
+            this_na_dict = this_na_dict.copy()
 
             # Override content of NASA Ames if they are permitted
             for key in overriders:
@@ -451,7 +453,7 @@ class XarrayToNA:
 
         col_names.extend(na_dict["VNAME"])
         col_names_line = ",".join(col_names)
-        na_dict["NCOM"].append(col_names_line) 
+        na_dict["NCOM"] = na_dict["NCOM"] + [col_names_line]
         na_dict["NNCOML"] = len(na_dict["NCOM"])
         return  
 
-- 
2.43.0


From cf84aeba127ee5a8c29324d1adbde53cab7df281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 31/58] fix: accept lists for list items and text for comments
 when overriding

---
 nappy/nc_interface/xarray_to_na.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 2ba1d61..58ea3dc 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -277,7 +277,9 @@ class XarrayToNA:
 
                 if key in permitted_overwrite_metadata:    
                     if key in items_as_lists:
-                        new_item = overriders[key].split()		   
+                        new_item = overriders[key]
+                        if isinstance(new_item, str):
+                            new_item = new_item.split()
                         if key in ("DATE", "RDATE"):
                             new_item = [int(list_item) for list_item in new_item]
                     else:
@@ -285,6 +287,8 @@ class XarrayToNA:
 
                     # Do specific overwrite for comments by inserting lines at start
                     if key in ("SCOM", "NCOM"):
+                        if isinstance(new_item, str):
+                            new_item = new_item.splitlines()
 
                         # Use rule defined in config file in terms of where to put new comments
                         if comment_override_rule == "replace":
-- 
2.43.0


From de15dafc843ad1df671409200e06ff6688ef63fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:30 +0000
Subject: [PATCH 32/58] fix: auxiliary coordinates of a dataset are converted
 in a fixed order

---
 nappy/nc_interface/xarray_to_na.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 58ea3dc..4965706 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -528,8 +528,9 @@ class XarrayDatasetToNA(XarrayToNA):
 
         # Also capture variables that are auxiliary coords of main variables 
         # (i.e. they are non-dimension coordinates)
-        aux_coord_var_keys = set([coord for var in xr_dset.values() for coord in var.coords.keys() \
-                                  if coord not in var.dims])
+        # - each is listed once, in order of appearance
+        aux_coord_var_keys = dict.fromkeys([coord for var in xr_dset.values() for coord in var.coords.keys() \
+                                            if coord not in var.dims])
 
         # Compile into one list of variable to convert
         xr_variables = [xr_dset[key] for key in main_var_keys]
-- 
2.43.0


From d7384b339f5d4d740d002d69fcb42b2b2b37da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 33/58] fix: local rules for global attributes no longer raise
 a NameError

---
 nappy/nc_interface/na_content_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 8d8883a..8aea946 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -535,7 +535,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         for att, value in local_nc_atts.items():
             if att not in local_nc_to_na_map:
-                local_nc_to_na_map[key] = value
+                local_nc_to_na_map[att] = value
 
         self.extra_comments = [[], [], []]  # Normal comments, special comments, other comments
 
-- 
2.43.0


From 095fa23b27b69eaae98e8034605e65e4ccc5fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:35 +0000
Subject: [PATCH 34/58] fix: convertNCToCSV writes CSV also to a given file
 name

---
 nappy/nappy_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index cee8ce2..49b33c5 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -302,8 +302,9 @@ def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
     """
     if csv_file == None:
         csv_file = getFileNameWithNewExtension(nc_file, "csv")
-        arg_dict["na_file"] = csv_file
-        arg_dict["delimiter"] = ","
+
+    arg_dict["na_file"] = csv_file
+    arg_dict["delimiter"] = ","
   
     return convertNCToNA(*[nc_file], **arg_dict)
     
-- 
2.43.0


From 619ad19c6707e4933d7a835f50397c9f5cda206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 35/58] fix: convertXarrayObjectsToNA can be imported and
 passes the size limit

---
 nappy/nappy_api.py                            | 6 +++---
 nappy/nc_interface/xarray_objs_to_na_files.py | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 49b33c5..f2daf2a 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -338,14 +338,14 @@ def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file,
     """
     na_items_to_override = na_items_to_override or {}
 
-    import nappy.nc_interface.xarray_objs_to_na_file
-    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+    import nappy.nc_interface.xarray_objs_to_na_files
+    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
                         na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
                         )
     convertor.convert()
 
     na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      annotation=annotation, no_header=no_header)
+                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
 
     return convertor.output_files_written 
 
diff --git a/nappy/nc_interface/xarray_objs_to_na_files.py b/nappy/nc_interface/xarray_objs_to_na_files.py
index 2197c76..dc478b3 100644
--- a/nappy/nc_interface/xarray_objs_to_na_files.py
+++ b/nappy/nc_interface/xarray_objs_to_na_files.py
@@ -54,5 +54,6 @@ class XarrayObjectsToNAFile(nappy.nc_interface.nc_to_na.NCToNA):
         self.requested_ffi = requested_ffi
 
         self.converted = False
+        self.na_dict_list = []
         self.output_message = []
 
-- 
2.43.0


From 5802ffd046c6853020e1265be962db32f7e563e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 36/58] fix: convertNAToNC honours the append mode

---
 nappy/nc_interface/na_to_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 0876215..3299cf6 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -106,7 +106,7 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         self.fix_attrs(ds)
 
         # Write to NetCDF
-        ds.to_netcdf(file_name)
+        ds.to_netcdf(file_name, mode=mode)
 
         log.info(f"NetCDF file '{file_name}' written successfully.")
         return True
-- 
2.43.0


From 4167f2acd285ee84cebfaab3438b1353cf445c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:54 +0000
Subject: [PATCH 37/58] fix: writeNADictToNC writes the contents

---
 nappy/nappy_api.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index f2daf2a..7eab1ea 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -123,6 +123,8 @@ ffi = nappy.chooseFFI(na_dict)
 
 # Import standard library modules
 import logging
+import os
+import tempfile
 log = logging.getLogger(__name__)
 
 # Import local modules
@@ -365,32 +367,17 @@ def writeNADictToNC(na_dict, nc_file, mode="w"):
     Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
     Note that mode="a" might not always work.
     """
-    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
-    import nappy.na_file.na_core
-    na_file_obj = nappy.na_file.na_core.NACore()
-    na_file_obj.setNADict(na_dict)
+    # Write the contents in full precision to a temporary file and convert that
+    with tempfile.TemporaryDirectory() as temp_dir:
+        na_file = os.path.join(temp_dir, "contents.na")
 
-    # Fake up some required methods
-    def fakeCaller():pass
-    na_file_obj.readData = fakeCaller
+        fout = openNAFile(na_file, "w", na_dict=na_dict.copy())
+        fout.write(float_format="%.17g")
+        fout.close()
 
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Now write them out
-    import xarray as xr
+        convertNAToNC(na_file, nc_file, mode=mode)
 
-    fout = xr.open_dataset(nc_file, mode=mode)
-    for var in (xr_primary_vars + xr_aux_vars):
-        fout.write(var)
-
-    # Write global attributes
-    for (att, value) in global_attributes:
-        setattr(fout, att, value)
-        
-    fout.close()
-    log.info("NetCDF file '%s' written successfully." % file_name)
+    log.info("NetCDF file '%s' written successfully." % nc_file)
     return True
 
 
-- 
2.43.0


From 1d85aabb06500d0c18327513099f1299fbb4413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 38/58] fix: missing values are not multiplied by the scale
 factor

---
 nappy/nc_interface/na_to_xarray.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 7312b54..e8c9c88 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -256,12 +256,7 @@ class NADictToXarrayObjects:
         log.debug(msg)
         self.output_message.append(msg)
 
-        array = np.array(self.na_file_obj.V[var_number])
-
-        if miss:
-            array = np.ma.masked_array(array, fill_value=miss)
-
-        array = array * scal
+        array = self._scaleValues(self.na_file_obj.V[var_number], miss, scal)
 
         # Set up axes
         if not hasattr(self, 'xr_axes'):
@@ -291,6 +286,14 @@ class NADictToXarrayObjects:
         var.attrs["nasa_ames_var_number"] = var_number
         return var
 
+    def _scaleValues(self, values, miss, scal):
+        """
+        Returns an array of the values multiplied by the scale factor. Missing
+        values are not scaled, so that they still equal the missing value.
+        """
+        array = np.array(values)
+        return np.where(array == miss, array, array * scal)
+
     def _convertXarrayAuxVariables(self):
         """
         Creates a Xarray variable from an auxiliary variable
@@ -326,11 +329,7 @@ class NADictToXarrayObjects:
              
         (var_name, units, miss, scal) = self.na_file_obj.getAuxVariable(avar_number)
 
-        array = np.array(self.na_file_obj.A[avar_number])
-        if miss:
-            array = np.ma.masked_array(array, fill_value=miss)
-
-        array = array * scal
+        array = self._scaleValues(self.na_file_obj.A[avar_number], miss, scal)
 
         msg="\nAdding auxiliary variable: %s" % self.na_file_obj.ANAME[avar_number]
         log.debug(msg)
-- 
2.43.0


From 39245675871a80ffd528c3b7ed0a7538e0e18e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 39/58] fix: report the format which cannot be converted

---
 nappy/nc_interface/na_to_xarray.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index e8c9c88..53ca06f 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -88,9 +88,9 @@ class NADictToXarrayObjects:
 
         # Check if we have capability to convert this FFI
         if self.na_file_obj.FFI in (2110, 2160, 2310): 
-            raise Exception(("Cannot convert NASA Ames File Format Index (FFI) " + 
-                             self.na_file_obj.FFI + 
-                             " to Xarray objects. No mapping implemented yet."))
+            raise Exception("Cannot convert NASA Ames File Format Index (FFI) " +
+                            str(self.na_file_obj.FFI) +
+                            " to Xarray objects. No mapping implemented yet.")
 
         self.output_message = []  # for output displaying message
         self.converted = False
-- 
2.43.0


From e510ed2c55353ba7702d0fc4afff09f54844225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 40/58] fix: select variables whose names begin with a digit,
 refuse unknown auxiliary variables

---
 nappy/nc_interface/na_to_xarray.py | 47 ++++++++++++++----------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 53ca06f..093e814 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -225,23 +225,27 @@ class NADictToXarrayObjects:
                 self.xr_variables.append(self._convertNAToXarrayVariable(var_number))
 
         else:
-            # If integers or numbers: then use as indices for selecting variables
-            if isinstance(self.variables[0], int) or re.match(r"\d+", str(self.variables[0])):
+            for variable in self.variables:
+                var_number = self._getVariableNumber(variable, self.na_file_obj.VNAME)
 
-                for var_number in self.variables:
-                    vn = int(var_number)
-                    self.xr_variables.append(self._convertNAToXarrayVariable(vn))
+                if var_number is None:
+                    raise Exception(f"Variable name not known: {variable}")
 
-            # If string: then use as variable names
-            elif isinstance(self.variables[0], str):
+                self.xr_variables.append(self._convertNAToXarrayVariable(var_number))
+
+    def _getVariableNumber(self, variable, names):
+        """
+        Returns the index of the selected variable in the list of names. The
+        selection is either a name or an index (as an integer or its text).
+        Returns None if there is no such variable.
+        """
+        if variable in names:
+            return names.index(variable)
 
-                for var_name in self.variables:
+        if re.match(r"\d+$", str(variable)) and int(variable) < len(names):
+            return int(variable)
 
-                    if var_name in self.na_file_obj.VNAME:
-                        var_number = self.na_file_obj.VNAME.index(var_name)
-                        self.xr_variables.append(self._convertNAToXarrayVariable(var_number))
-                    else:
-                        raise Exception(f"Variable name not known: {var_name}")
+        return None
 
     def _convertNAToXarrayVariable(self, var_number, attributes=None):
         """
@@ -306,20 +310,13 @@ class NADictToXarrayObjects:
                 self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number))
 
         else:
-            if type(self.aux_variables[0]) == type(1): # They are integers = indices
+            for variable in self.aux_variables:
+                avar_number = self._getVariableNumber(variable, self.na_file_obj.ANAME)
 
-                for avar_number in self.aux_variables:
-                    self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number))   
+                if avar_number is None:
+                    raise Exception(f"Auxiliary variable name not known: {variable}")
 
-            elif type(self.aux_variables[0]) == type("string"): # They are strings
-
-                for avar_name in self.aux_variables:
-
-                    if avar_name in self.na_file_obj.ANAME:
-                        avar_number = self.na_file_obj.ANAME.index(avar_name)
-                        self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number)) 
-            else:
-                raise Exception("Auxiliary variable name not known: " + avar_name)        
+                self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number))
 
     def _convertNAAuxToXarrayVariable(self, avar_number, attributes=None):
         """
-- 
2.43.0


From c528b01f51c2b81f559604b0b3070e1c1a5d80d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 41/58] fix: variables do not overwrite each other, names are
 as requested

---
 nappy/nc_interface/na_to_xarray.py | 36 ++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 093e814..2043457 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -279,12 +279,7 @@ class NADictToXarrayObjects:
         else:
             var_name = "naVariable_%s" % (var_number)
 
-        # Check if mapping provided for renaming this variable
-        if var_name.lower() in self.rename_variables.keys():
-            var_name = self.rename_variables[var_name.lower()]
-
-        var.attrs["long_name"] = var.attrs["title"] = var_name
-        var.name = nappy.utils.common_utils.safe_name(var_name)
+        self._setVariableName(var, var_name)
 
         # Add a NASA Ames variable number (for mapping correctly back to NASA Ames)
         var.attrs["nasa_ames_var_number"] = var_number
@@ -298,6 +293,28 @@ class NADictToXarrayObjects:
         array = np.array(values)
         return np.where(array == miss, array, array * scal)
 
+    def _setVariableName(self, var, var_name):
+        """
+        Sets the name of a variable: as requested if a mapping is provided for
+        renaming it. A number is appended if the name is in use already, by an
+        axis or another variable.
+        """
+        if var_name.lower() in self.rename_variables:
+            name = var_name = self.rename_variables[var_name.lower()]
+        else:
+            name = nappy.utils.common_utils.safe_name(var_name)
+
+        used_names = [axis.name for axis in self.xr_axes]
+        used_names += [other.name for other in self.xr_variables + getattr(self, "xr_aux_variables", [])]
+
+        var.attrs["long_name"] = var.attrs["title"] = var_name
+        var.name = name
+        count = 1
+
+        while var.name in used_names:
+            count += 1
+            var.name = f"{name}_{count}"
+
     def _convertXarrayAuxVariables(self):
         """
         Creates a Xarray variable from an auxiliary variable
@@ -349,12 +366,7 @@ class NADictToXarrayObjects:
         else:
             var_name = f"naAuxVariable_{avar_number}"
 
-        # Check if mapping provided for renaming this variable
-        if var_name in self.rename_variables.keys():
-            var_name = self.rename_variables[var_name]
-
-        var.attrs["long_name"] = var.attrs["title"] = var_name
-        var.name = nappy.utils.common_utils.safe_name(var_name)
+        self._setVariableName(var, var_name)
 
         # Add a NASA Ames auxiliary variable number (for mapping correctly back to NASA Ames)
         var.attrs["nasa_ames_aux_var_number"] = avar_number
-- 
2.43.0


From b4a59c252cb50d83413a319be85b288add98ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:31 +0000
Subject: [PATCH 42/58] fix: auxiliary variables of FFI 1020 are converted on
 the recorded axis values

---
 nappy/nc_interface/na_to_xarray.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 2043457..cb78c24 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -354,7 +354,7 @@ class NADictToXarrayObjects:
             self._convertXarrayAxes()
 
         # Set up variable
-        var = xarray_utils.create_data_array(array, name=var_name, coords=self.xr_axes[:1], 
+        var = xarray_utils.create_data_array(array, name=var_name, coords=self._getAuxAxes(),
                                   fill_value=miss, attrs=attributes)
 
         # Sort units etc
@@ -372,6 +372,20 @@ class NADictToXarrayObjects:
         var.attrs["nasa_ames_aux_var_number"] = avar_number
         return var        
 
+    def _getAuxAxes(self):
+        """
+        Returns the list of axes of auxiliary variables: the first axis, of which
+        only the values recorded in the file if the others are implied (FFI 1020).
+        """
+        axis = self.xr_axes[0]
+
+        if self.na_file_obj.FFI != 1020:
+            return [axis]
+
+        recorded = axis[::self.na_file_obj.NVPM]
+        name = f"{axis.name}_recorded"
+        return [recorded.rename(name).rename({axis.name: name})]
+
     def _convertXarrayAxes(self): 
         """
         Creates Xarray axes from information provided in the NASA Ames dictionary.
-- 
2.43.0


From 62abfdb68fba1fb2daba5225cc2f3bed4506e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 43/58] fix: empty texts remain texts in NetCDF attributes

---
 nappy/nc_interface/na_to_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 3299cf6..f2c99b7 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -73,7 +73,7 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
 
         value = dct.get(key)
 
-        if isinstance(value, Sequence) and all([isinstance(v, int) for v in value]):
+        if isinstance(value, Sequence) and not isinstance(value, str) and all([isinstance(v, int) for v in value]):
             dct[key] = [to_np_int(v) for v in value]
         elif isinstance(value, int):
             dct[key] = to_np_int(value)
-- 
2.43.0


From 49d3961e11e181c8826ba039e5d108f2084f32c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 44/58] fix: compareNA runs with Python 3 and returns the
 result

---
 nappy/utils/compare_na.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index ae431bf..4bfb28a 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -57,13 +57,12 @@ def exitNicely(msg):
 def compareNA(i1, i2, **kwargs):
     """
     Compares items whether files or directories.
-    Reports any differences at the command line but
-    also returns them in a dictionary as:
-    ???
+    Reports any differences at the command line. For files it
+    returns True if the compared sections are identical.
     **kwargs are forwarded as dictionary to compNAFiles().
     """
     if os.path.isfile(i1):
-        apply(compNAFiles, (i1, i2), kwargs)
+        return compNAFiles(i1, i2, **kwargs)
     elif os.path.isdir(i1):
         compDirs(i1, i2)
     else:
@@ -251,7 +250,7 @@ def parseArgs(args):
 def main(args):
     "Main controller."
     files, arg_dict = parseArgs(args)
-    apply(compareNA, files, arg_dict) 
+    compareNA(*files, **arg_dict)
    
  
 if __name__=="__main__":
-- 
2.43.0


From a28f459d51ebb2bd135caab6d0c8a8d1b5254a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 45/58] fix: comparison of files notices different lengths,
 headers and numbers beyond 1%, not delimiters

---
 nappy/utils/compare_na.py | 51 +++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index 4bfb28a..a7f82af 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -44,7 +44,6 @@ from nappy.utils.compare import *
 equality_threshold = 0.01 # i.e. within 1% of each other
 file_exclusion_patterns = (r".*CSV.*", r".*svn.*", r"\..*", r".*\.pyc$", r".*~$") 
 file_exclusions = [re.compile(pattn) for pattn in file_exclusion_patterns]
-letter_match = re.compile(r"[a-zA-Z]")
 
 
 def exitNicely(msg):
@@ -69,6 +68,19 @@ def compareNA(i1, i2, **kwargs):
         exitNicely("Cannot recognise/find item '" + i1 + "'.")
 
 
+def splitItems(line, delimiter=None):
+    """
+    Returns the items of a line. White-space also separates items if another
+    delimiter is used, as some header lines always contain it.
+    """
+    items = []
+
+    for item in line.split(delimiter):
+        items += item.split() or [item.strip()]
+
+    return items
+
+
 def compareSections(l1, l2, number_clever=True, approx_equal=False, 
                    delimiter_1=None, delimiter_2=None):
     """
@@ -78,7 +90,8 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
     if len(l2) < leng:
         leng = len(l2)
 
-    all_same = True
+    # Sections of different lengths are never the same
+    all_same = len(l1) == len(l2)
 
     for i in range(leng):
 
@@ -88,23 +101,15 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
         l1[i] = l1[i].strip()
         l2[i] = l2[i].strip()
 
-        # If letters found in line then not going to be numeric 
-        # Hence we can just test if lines are identical
-        if letter_match.search(l1[i]):
-            if l1[i] == l2[i]:
-                continue
+        # Identical lines need not be split
+        if l1[i] == l2[i]:
+            continue
 
-        items1 = l1[i].split(delimiter_1)
-        items2 = l2[i].split(delimiter_2)
+        items1 = splitItems(l1[i], delimiter_1)
+        items2 = splitItems(l2[i], delimiter_2)
         
         if len(items1) != len(items2):
-            # Check that space delimiter hasn't just split identical lines to different lengths
-            if len(items1) == 1 and items1[0].split() == items2:
-                continue
-            elif len(items2) == 1 and items2[0].split() == items1:
-                continue
-            else:
-                same = False
+            same = False
         else: 
             if not number_clever:
                 if items1 != items2:
@@ -118,16 +123,13 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
                         a = items1[count]
                         b = items2[count]
 
-                    if a != b:
+                    if a != b and items1[count] != items2[count]:
                         
-                        if approx_equal:
+                        if approx_equal and isinstance(a, float):
                         # Check to see if testing for approximate equality
                             if a == 0:  a = 0.000000001
                             if b == 0:  b = 0.000000001
-                            divided = a/b
-                            if divided < 1:
-                                divided = b/a
-                            if (1 - divided) > equality_threshold:
+                            if abs(a - b) > equality_threshold * min(abs(a), abs(b)):
                                 same = False
                                 break  
                         else: 
@@ -197,8 +199,9 @@ def compNAFiles(f1, f2, header=True, body=True, number_clever=True, approx_equal
         print("Comparing bodies:")
         print(">>> %s body:" % f1)
         print("<<< %s body:" % f2)
-        same = compareSections(body1, body2, number_clever, approx_equal, delimiter_1, delimiter_2)
-        if same:
+        same_body = compareSections(body1, body2, number_clever, approx_equal, delimiter_1, delimiter_2)
+        same = same and same_body
+        if same_body:
             print("BODIES ARE IDENTICAL.")
         if len(body1) != len(body2):
             print("Body lengths differ:\n>>> %s: %s\n<<< %s: %s" % (f1, len(body1), f2, len(body2)))
-- 
2.43.0


From 23a54f972ef283b7e438bdc743a44a2911649b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 46/58] fix: the row limit option -l is recognised

---
 nappy/script/nc2csv.py | 2 +-
 nappy/script/nc2na.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index ee45ec1..f6ec60e 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -94,7 +94,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
diff --git a/nappy/script/nc2na.py b/nappy/script/nc2na.py
index a83cb13..9f2f6f4 100755
--- a/nappy/script/nc2na.py
+++ b/nappy/script/nc2na.py
@@ -95,7 +95,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
-- 
2.43.0


From 50537afdd5aab240d52849b9b0f6f6a09c0442b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 47/58] fix: the nc2csv command writes commas however it is
 started

---
 nappy/script/nc2csv.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index f6ec60e..024f46a 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -65,12 +65,11 @@ def parseArgs(args):
     a["var_ids"] = None
     a["requested_ffi"] = None
     a["float_format"] = nappy.default_float_format
-    a["delimiter"] = nappy.default_delimiter
     a["size_limit"] = None
     a["exclude_vars"] = []
     a["na_items_to_override"] = {}
     a["only_return_file_names"] = False
-    a["na_file"] = None
+    a["csv_file"] = None
     a["no_header"] = False
     a["annotation"] = False
 
@@ -85,7 +84,7 @@ def parseArgs(args):
         if arg == "-i":
             a["nc_file"] = value
         elif arg == "-o":
-            a["na_file"] = value
+            a["csv_file"] = value
         elif arg == "-v":
             a["var_ids"] = value.split(",")
         elif arg == "--ffi":
@@ -93,7 +92,7 @@ def parseArgs(args):
         elif arg == "-f":
             a["float_format"] = value
         elif arg == "-d":
-            a["delimiter"] = value
+            exitNicely("nc2csv.py does not accept the -d argument as the delimiter is fixed as a comma, try using nc2na.py instead.")
         elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
@@ -124,7 +123,7 @@ def nc2csv(args=None):
         args = sys.argv[1:]
 
     arg_dict = parseArgs(args)
-    csv_files = nappy.convertNCToNA(**arg_dict)
+    csv_files = nappy.convertNCToCSV(**arg_dict)
 
     # If user only wants files then only give them that
     if arg_dict["only_return_file_names"]:
@@ -141,8 +140,4 @@ def nc2csv(args=None):
 
 if __name__ == "__main__":
     args = sys.argv[1:]
-    if "-d" in args:
-        exitNicely("nc2csv.py does not accept the -d argument as the delimiter is fixed as a comma, try using nc2na.py instead.")
-
-    args.extend(["-d", ","])
     nc2csv(args)
\ No newline at end of file
-- 
2.43.0


From be81e5a598ff50fff76a8cbad6523347b9378a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 48/58] fix: arrays and lists of lists of several dimensions
 are converted and created

---
 nappy/utils/list_manipulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/list_manipulator.py b/nappy/utils/list_manipulator.py
index 9cb1a4f..f7a7661 100644
--- a/nappy/utils/list_manipulator.py
+++ b/nappy/utils/list_manipulator.py
@@ -29,7 +29,8 @@ def arrayToList(array, inlist):
     dimlist = array.shape
     if len(dimlist[1:]) > 0:
         for i in range(dimlist[0]):
-            arrayToList(inlist[i], array[i])
+            inlist.append([])
+            arrayToList(array[i], inlist[i])
     else:
         for i in range(dimlist[0]):
             inlist.append(array[i])
@@ -43,7 +44,7 @@ def listOfListsCreator(inlist, dimlist):
     if len(dimlist[1:]) > 0:
         for i in range(dimlist[0]):
             inlist.append([])
-            listOfListsCreator(inlist[i], array, dimlist[1:])
+            listOfListsCreator(inlist[i], dimlist[1:])
     return inlist
 
 
-- 
2.43.0


From f531e3787dd801b6988e2efa16729a863aa58c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 49/58] fix: DATE of converted files is worked out in the
 calendar of the time axis

---
 nappy/nc_interface/na_content_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 8aea946..566520c 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -798,6 +798,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             # Get first date in list
             try:
                 units = self.ax0.encoding["units"]
+                calendar = self.ax0.encoding.get("calendar", "standard")
                 first_day = self.na_dict["X"][0]
 
                 # Cope with "X" being a list or list of lists (for different FFIs)
@@ -805,7 +806,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     first_day = first_day[0]
 
                 self.na_dict["DATE"] = \
-                    [getattr(cftime.num2date(first_day, units), attr) for attr in ('year', 'month', 'day')]                
+                    [getattr(cftime.num2date(first_day, units, calendar=calendar), attr) for attr in ('year', 'month', 'day')]                
             except Exception:
                 msg = warning_message
                 log.info(msg)
-- 
2.43.0


From 0d11b3444ef607e6562015e944619ec59aeec870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 50/58] fix: missing points of single precision variables equal
 the missing value in the header

---
 nappy/nc_interface/xarray_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 9ce0379..d069f7d 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -318,12 +318,12 @@ def getArrayAsList(da, missing_value=None, handle_datetimes=True):
 
     elif missing_value is not None:
         arr = resolve_array(da.data)
-        found_nans = np.isnan(arr).any()
+        nans = np.isnan(arr)
 
-        if found_nans:
-            arr = da.fillna(missing_value).data
-        else:
-            arr = da.data
+        if nans.any():
+            # Not held in the type of the array, which could round the missing value
+            arr = arr.astype(object)
+            arr[nans] = missing_value
 
     else:
         arr = da.data
-- 
2.43.0


From a1be02cfcf1b2a30205e5f6afb2ce739773b847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 51/58] fix: a NaN fill value is not used as NASA Ames missing
 value

---
 nappy/nc_interface/xarray_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index d069f7d..8e81261 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -77,7 +77,8 @@ def getMissingValue(var):
                 miss = var.encoding[key]
                 break
 
-    if miss is None:
+    # NaN cannot be used to mark points in a NASA Ames file
+    if miss is None or miss != miss:
         miss = -1.e20
 
     return miss
-- 
2.43.0


From c885f0b1b2d6678c4971bea1c49112b233beaa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 52/58] fix: single values which are not numbers, such as
 dates, can be converted

---
 nappy/utils/common_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 24d0c8e..b75fa5f 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -257,7 +257,7 @@ def get_rank_zero_array_value(arr):
     """
     Return an appropriate value for a rank-zero array value.
     It returns a float (for a number) or a string (from a string
-    or bytes string).
+    or bytes string, or anything else, such as a date).
     """
     # Import numpy here so that pip install works without error
     import numpy as np
@@ -267,5 +267,8 @@ def get_rank_zero_array_value(arr):
     elif arr.dtype.type is np.bytes_:
         return arr.flat[0].decode()
     else:
-        return float(arr) 
+        try:
+            return float(arr)
+        except (TypeError, ValueError):
+            return str(arr)
 
-- 
2.43.0


From 12a6c1cf746718ea1ff77df95b2c12a985a0c2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 53/58] fix: empty names and numeric units of NetCDF variables

---
 nappy/nc_interface/xarray_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 8e81261..e47f252 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -27,8 +27,8 @@ def getBestName(var):
 
     # Deal with object that has attributes
     for att in att_order:
-        if hasattr(var, att):   
-            name = getattr(var, att)
+        name = getattr(var, att, None)
+        if name:
             break
 
     # Deal with object that has dictionary lookup instead of attributes
@@ -49,7 +49,7 @@ def getBestName(var):
     if not units:
         units = var.encoding.get("units", "")
 
-    units = units.strip()
+    units = str(units).strip()
 
     if units:
         name = f"{name} ({units})"
-- 
2.43.0


From 5851541ade4578cd0c430cf399876b10a7689a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 54/58] fix: axes of numpy datetimes can be converted

---
 nappy/nc_interface/xarray_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index e47f252..82f3796 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -291,7 +291,12 @@ def datetimes_to_nums(da):
     encoding = da.encoding if 'units' in da.encoding else da.time.encoding
     units = encoding['units']
     calendar = encoding.get('calendar', 'standard')
-    arr = cftime.date2num(da.data, units, calendar=calendar)
+    dates = resolve_array(da.data)
+
+    if np.issubdtype(dates.dtype, np.datetime64):
+        dates = dates.astype("datetime64[us]").astype(object)
+
+    arr = cftime.date2num(dates, units, calendar=calendar)
     return arr
 
 
-- 
2.43.0


From a8f1b1dd0f6fc4a0271ab717c369af196a32d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 55/58] fix: missing values in the header are written in the
 form they have among the data

---
 nappy/na_file/na_file.py      | 11 +++++++++--
 nappy/na_file/na_file_2160.py |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index ecdc091..e6d6408 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -232,9 +232,16 @@ class NAFile(nappy.na_file.na_core.NACore):
         """
         self.header.write(wrapLine("NV", self.annotation, self.delimiter, "%d\n" % self.NV))
         self.header.write(wrapLine("VSCAL", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NV - 1) + "%s\n") % tuple(self.VSCAL)))
-        self.header.write(wrapLine("VMISS", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NV - 1) + "%s\n") % tuple(self.VMISS)))
+        self.header.write(wrapLine("VMISS", self.annotation, self.delimiter, self._missingValuesLine(self.VMISS)))
         self.header.write(wrapLines("VNAME", self.annotation, self.delimiter, "%s\n" * self.NV % tuple(self.VNAME)))
 
+    def _missingValuesLine(self, values):
+        """
+        Returns the line of missing values, written as they are among the data
+        so that the missing points can be recognised.
+        """
+        return self.delimiter.join([(self.float_format % value).strip() for value in values]) + "\n"
+
     def _readAuxVariablesHeaderSection(self):
         """
         Reads the auxiliary variables section of the header.
@@ -255,7 +262,7 @@ class NAFile(nappy.na_file.na_core.NACore):
         if self.NAUXV > 0:
             line = (("%s" + self.delimiter) * (self.NAUXV - 1) + "%s\n")  % tuple(self.ASCAL)
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXV - 1) + "%s\n")  % tuple(self.AMISS)
+            line = self._missingValuesLine(self.AMISS)
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
             line = "%s\n" * self.NAUXV % tuple(self.ANAME)
             self.header.write(wrapLines("ANAME", self.annotation, self.delimiter, line))
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 9d8afad..4d465aa 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -72,7 +72,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         if self.NAUXV > 0:
             line = (("%s" + self.delimiter) * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.ASCAL)
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.AMISS[0:(self.NAUXV - self.NAUXC)])
+            line = self._missingValuesLine(self.AMISS[0:(self.NAUXV - self.NAUXC)])
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
             if self.NAUXC > 0:
                 line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
-- 
2.43.0


From e3dd5c939489e0d431ceeb5de86c4569b1ed1c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 56/58] fix: single numpy dates are recorded as dates

---
 nappy/utils/common_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index b75fa5f..03eb813 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -266,6 +266,8 @@ def get_rank_zero_array_value(arr):
         return str(arr)
     elif arr.dtype.type is np.bytes_:
         return arr.flat[0].decode()
+    elif arr.dtype.kind in "mM":
+        return str(arr)
     else:
         try:
             return float(arr)
-- 
2.43.0


From 42c0f922cbdb44729bc597f455dc21fb1daaa018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:17 +0000
Subject: [PATCH 57/58] fix: keep the units and description of a time axis when
 no other units are given

---
 nappy/nc_interface/na_to_xarray.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index cb78c24..e741d06 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -453,9 +453,12 @@ class NADictToXarrayObjects:
                 self.output_message.append(message)
                 self.time_units = time_units_input
 
-            axis.attrs["units"] = self.time_units
-            axis.encoding["units"] = self.time_units
-            axis.attrs["long_name"] = f"time ({self.time_units})"
+            # Without other units the axis keeps its own units and description
+            if self.time_units:
+                axis.attrs["units"] = self.time_units
+                axis.encoding["units"] = self.time_units
+                axis.attrs["long_name"] = f"time ({self.time_units})"
+
             axis.name = "time"
 
         axis.attrs["name"] = axis.name
-- 
2.43.0


From 2d72900016a43768f0ec6ef2798d7082791e8859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:33 +0000
Subject: [PATCH 58/58] fix: do not treat control characters inside a text as
 line ends in annotated files

---
 nappy/utils/common_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 03eb813..aa89042 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -206,7 +206,8 @@ def annotateLines(item_name, annotate, delimiter, lines):
     Takes item_name to look up, delimiter and item to render and returns full line.
     """
 
-    split_lines = lines.splitlines(1)
+    # Split at line ends only, as other control characters may be part of a text
+    split_lines = StringIO(lines).readlines()
     output = ""
 
     count = 1
-- 
2.43.0

