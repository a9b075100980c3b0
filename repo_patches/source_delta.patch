From 0f5f0e1a02605b9becff4ae50cfbb19fcc68b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:54 +0000
Subject: [PATCH 01/45] fix: endless loop on packet length list that ends with
 a continuation byte

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 5f5ef9e..3fe5da4 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -267,7 +267,7 @@ class BoxValidator:
         while i < lpl and i < len(
                 self.boxContents):  # Don't over-read on bad lplt/lplm
             ipl_i_len = 1  # number of bytes making up the current ipl(t|m)_i
-            while bc.bytesToUnsignedChar(
+            while i + ipl_i_len < len(self.boxContents) and bc.bytesToUnsignedChar(
                     self.boxContents[i + ipl_i_len - 1:i + ipl_i_len]) & 0x80:
                 ipl_i_len += 1
 
-- 
2.43.0


From 1d44269640c4049bcbf4643f6048c111c2efc3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:55 +0000
Subject: [PATCH 02/45] fix: endless loop on tile-part whose length cannot be
 read

---
 jpylyzer/boxvalidator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 3fe5da4..9776a6b 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1673,12 +1673,13 @@ class BoxValidator:
                         # tilePartsPerTileFound (e.g. because the isot field is
                         # damaged)
                         break
-                    if offsetNext != offset:
+                    if offsetNext > offset:
                         offset = offsetNext
                     else:
                         # offsetNext same as offset: this happens if image only contains
                         # one single tile-part (psot=0), in which case we break out of
-                        # this loop
+                        # this loop. Also break out if offsetNext is before offset, which
+                        # happens if psot cannot be read (damaged SOT marker segment)
                         break
 
             # Length of tileIndices must equal numberOfTilesExpected
-- 
2.43.0


From fd876f44fd216f9194d0447b12a2f84c038ed13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 03/45] fix: damaged palette entry count makes analysis take
 minutes

---
 jpylyzer/boxvalidator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 9776a6b..bd6a5bb 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -958,6 +958,9 @@ class BoxValidator:
         # nE within range 1-1024
         self.testFor("nEIsValid", 1 <= nE <= 1024)
 
+        # Impose upper value on nE to avoid freezes in case of byte corrupted file
+        nE = min(nE, 1024)
+
         # Number of palette columns
         nPC = bc.bytesToUnsignedChar(self.boxContents[2:3])
         self.addCharacteristic("nPC", nPC)
-- 
2.43.0


From 6de782d60575103a50fd7e3e3cc1d5808a33426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:58 +0000
Subject: [PATCH 04/45] fix: internal error on undefined and 4k IMF reversible
 profile values of rsiz

---
 jpylyzer/boxvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index bd6a5bb..8f3b2aa 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1811,6 +1811,8 @@ class BoxValidator:
                 capability = "Scalable 4K digital cinema profile"
             elif mainLevel == 7:
                 capability = "Long-term storage profile"
+            else:
+                capability = "Unknown (value not defined in ISO/IEC 15444-1)"
         elif profile == 1:
             capability = "Broadcast Contribution Single Tile Profile, Mainlevel " + \
                 str(mainLevel)
@@ -1833,7 +1835,7 @@ class BoxValidator:
             capability = "2k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 8:
-            rsiz = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
+            capability = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 9:
             capability = "8k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
-- 
2.43.0


From bf74e199060d45bd05e66b346aea98a7b61399ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:59 +0000
Subject: [PATCH 05/45] fix: internal error on resolution boxes with a zero
 denominator

---
 jpylyzer/boxvalidator.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 8f3b2aa..0c1c0fe 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1216,11 +1216,19 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vRescInPixelsPerMeter = (vRcN / vRcD) * (10 ** (vRcE))
+        if vRcD != 0:
+            vRescInPixelsPerMeter = (vRcN / vRcD) * (10 ** (vRcE))
+        else:
+            # Bogus value, prevents zero-division
+            vRescInPixelsPerMeter = -9999
         self.addCharacteristic(
             "vRescInPixelsPerMeter", round(vRescInPixelsPerMeter, 2))
 
-        hRescInPixelsPerMeter = (hRcN / hRcD) * (10 ** (hRcE))
+        if hRcD != 0:
+            hRescInPixelsPerMeter = (hRcN / hRcD) * (10 ** (hRcE))
+        else:
+            # Bogus value, prevents zero-division
+            hRescInPixelsPerMeter = -9999
         self.addCharacteristic(
             "hRescInPixelsPerMeter", round(hRescInPixelsPerMeter, 2))
 
@@ -1275,11 +1283,19 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vResdInPixelsPerMeter = (vRdN / vRdD) * (10 ** (vRdE))
+        if vRdD != 0:
+            vResdInPixelsPerMeter = (vRdN / vRdD) * (10 ** (vRdE))
+        else:
+            # Bogus value, prevents zero-division
+            vResdInPixelsPerMeter = -9999
         self.addCharacteristic(
             "vResdInPixelsPerMeter", round(vResdInPixelsPerMeter, 2))
 
-        hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** (hRdE))
+        if hRdD != 0:
+            hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** (hRdE))
+        else:
+            # Bogus value, prevents zero-division
+            hResdInPixelsPerMeter = -9999
         self.addCharacteristic(
             "hResdInPixelsPerMeter", round(hResdInPixelsPerMeter, 2))
 
-- 
2.43.0


From c7deeb44e76571e6ac4bfff5c6c226903b39492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:00 +0000
Subject: [PATCH 06/45] fix: internal error on truncated UUIDs

---
 jpylyzer/boxvalidator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 0c1c0fe..f9fd99b 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -3332,6 +3332,10 @@ class BoxValidator:
         # Check box size, which must be greater than 16 bytes
         self.testFor("boxLengthIsValid", boxLength > 16)
 
+        if boxLength < 16:
+            # UUID is incomplete, so there is nothing to extract
+            return
+
         # First 16 bytes contain UUID, convert to string of hex digits
         # in standard form
         boxUUID = str(uuid.UUID(bytes=self.boxContents[0:16]))
@@ -3432,6 +3436,9 @@ class BoxValidator:
         # Loop through all UUIDs
         offset = 2
         for _ in range(nU):
+            if len(self.boxContents) < offset + 16:
+                # UUID is incomplete
+                break
             boxUUID = str(
                 uuid.UUID(bytes=self.boxContents[offset:offset + 16]))
             self.addCharacteristic("uuid", boxUUID)
-- 
2.43.0


From 1df172a0419d1ff0d5870ddbc168bde9ca915b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:01 +0000
Subject: [PATCH 07/45] fix: internal error on profile numbers with more than
 4300 digits

---
 jpylyzer/etpatch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/etpatch.py b/jpylyzer/etpatch.py
index 741d15e..21cfa13 100644
--- a/jpylyzer/etpatch.py
+++ b/jpylyzer/etpatch.py
@@ -123,7 +123,11 @@ class Element(ET.Element):
                 if textType == bytes:
                     textOut = bc.bytesToText(remappedValue)
                 elif textType in numericTypes:
-                    textOut = str(remappedValue)
+                    try:
+                        textOut = str(remappedValue)
+                    except ValueError:
+                        # Integer exceeds Python's limit for decimal conversion
+                        textOut = hex(remappedValue)
                 else:
                     textOut = bc.removeControlCharacters(remappedValue)
 
-- 
2.43.0


From b5f2b70be0261b8f79c08bbe56cf56de028242be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:02 +0000
Subject: [PATCH 08/45] fix: internal error on truncated box type that looks
 like a codestream marker

---
 jpylyzer/boxvalidator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index f9fd99b..2a9ed52 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -159,6 +159,10 @@ class BoxValidator:
         if boxLengthValue == 0:
             boxLengthValue = noBytes - byteStart
 
+        # Box type that is cut off at the end of the data could be mistaken for a
+        # (2-byte) codestream marker, so pad to its normal length
+        boxType = boxType.ljust(4, b'\x00')
+
         # End byte for current box
         byteEnd = byteStart + boxLengthValue
 
-- 
2.43.0


From 78bb66ec2f32a4d32b2d35d5504fa2988b4f5506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:55 +0000
Subject: [PATCH 09/45] fix: modification times that cannot be represented as a
 date abort the run

---
 jpylyzer/jpylyzer.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index b95af40..51ded87 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,7 +33,6 @@ Contributors:
 
 import sys
 import os
-import time
 import datetime
 import glob
 import argparse
@@ -362,14 +361,13 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     fileInfo.appendChildTagWithText("filePath", filePathCleaned)
     fileInfo.appendChildTagWithText(
         "fileSizeInBytes", str(os.path.getsize(path)))
+    dt = os.path.getmtime(path)
     try:
-        dt = os.path.getmtime(path)
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
-    except ValueError:
+    except (ValueError, OverflowError, OSError):
         # Dates earlier than 1 Jan 1970 can raise ValueError on Windows
         # Workaround: replace by lowest possible value (typically 1 Jan 1970)
-        dt = time.ctime(0)
-        lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
+        lastModifiedDate = datetime.datetime.fromtimestamp(0).isoformat()
     fileInfo.appendChildTagWithText(
         "fileLastModified", lastModifiedDate)
 
-- 
2.43.0


From da9aced91c58bb8c613dd7471f3e73e377763a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:56 +0000
Subject: [PATCH 10/45] fix: file that vanishes or cannot be accessed aborts
 the whole run

---
 jpylyzer/jpylyzer.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 51ded87..be15ce6 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -359,17 +359,10 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     # Produce some general tool and file meta info
     fileInfo.appendChildTagWithText("fileName", fileNameCleaned)
     fileInfo.appendChildTagWithText("filePath", filePathCleaned)
-    fileInfo.appendChildTagWithText(
-        "fileSizeInBytes", str(os.path.getsize(path)))
-    dt = os.path.getmtime(path)
-    try:
-        lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
-    except (ValueError, OverflowError, OSError):
-        # Dates earlier than 1 Jan 1970 can raise ValueError on Windows
-        # Workaround: replace by lowest possible value (typically 1 Jan 1970)
-        lastModifiedDate = datetime.datetime.fromtimestamp(0).isoformat()
-    fileInfo.appendChildTagWithText(
-        "fileLastModified", lastModifiedDate)
+
+    # Dummy values for size and date, in case the file cannot be accessed
+    fileSize = -9999
+    lastModifiedDate = ""
 
     # Initialise success flag
     success = True
@@ -377,6 +370,15 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     fmmWarnings = []
 
     try:
+        fileSize = os.path.getsize(path)
+        dt = os.path.getmtime(path)
+        try:
+            lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
+        except (ValueError, OverflowError, OSError):
+            # Dates earlier than 1 Jan 1970 can raise ValueError on Windows
+            # Workaround: replace by lowest possible value (typically 1 Jan 1970)
+            lastModifiedDate = datetime.datetime.fromtimestamp(0).isoformat()
+
         # Contents of file to memory map object
         if NO_MMAP_LIB:
             fileData = fileToBytes(path)
@@ -444,6 +446,9 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     if mixFlag != 0 and fileIsValid:
         mixProperties = mix.Mix(mixFlag).generateMix(characteristics)
 
+    fileInfo.appendChildTagWithText("fileSizeInBytes", str(fileSize))
+    fileInfo.appendChildTagWithText("fileLastModified", lastModifiedDate)
+
     # Add status info
     statusInfo.appendChildTagWithText("success", str(success))
     if not success:
-- 
2.43.0


From aac1f141776343e2d36106159faba59c09afcc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:57 +0000
Subject: [PATCH 11/45] fix: recursive run hangs on named pipes

---
 jpylyzer/jpylyzer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index be15ce6..f633cf7 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -551,7 +551,9 @@ def getFilesFromTree(rootDir):
 
         for filename in filenames:
             thisFile = os.path.join(dirname, filename)
-            EXISTING_FILES.append(thisFile)
+            # Skip anything that is not a file (e.g. named pipes, on which open blocks)
+            if os.path.isfile(thisFile):
+                EXISTING_FILES.append(thisFile)
 
 
 def findFiles(recurse, paths):
-- 
2.43.0


From 13b336e807fcbe228345360938e89f196fd91b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:58 +0000
Subject: [PATCH 12/45] fix: failure message calls I/O errors unknown errors

---
 jpylyzer/jpylyzer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index f633cf7..d4394bd 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -424,13 +424,12 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     except Exception as ex:
         fileIsValid = False
         success = False
-        exceptionType = type(ex)
 
-        if exceptionType == MemoryError:
+        if isinstance(ex, MemoryError):
             failureMessage = "memory error (file size too large)"
-        elif exceptionType == IOError:
+        elif isinstance(ex, IOError):
             failureMessage = "I/O error (cannot open file)"
-        elif exceptionType == RuntimeError:
+        elif isinstance(ex, RuntimeError):
             failureMessage = "runtime error, please report to developers by creating " + \
                              "an issue at https://github.com/openpreserve/jpylyzer/issues"
         else:
-- 
2.43.0


From af986a3bcd4b10af3832bd7ee5f344a0a63534da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:59 +0000
Subject: [PATCH 13/45] fix: interrupts and lack of memory are swallowed and
 change the result

---
 jpylyzer/boxvalidator.py | 22 +++++++++++++++-------
 jpylyzer/byteconv.py     |  6 +++---
 jpylyzer/etpatch.py      |  5 +----
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 2a9ed52..bdedcf1 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -455,7 +455,7 @@ class BoxValidator:
         try:
             firstJP2HeaderBoxIsImageHeaderBox = subBoxTypes[
                 0] == self.boxTagMap['imageHeaderBox']
-        except Exception:
+        except IndexError:
             firstJP2HeaderBoxIsImageHeaderBox = False
 
         self.testFor(
@@ -946,7 +946,7 @@ class BoxValidator:
 
             # Description as binary string (excluding terminating null char)
             description = descTag[12:12 + descriptionLength - 1]
-        except Exception:
+        except ValueError:
             description = ""
         self.addCharacteristic("description", description)
 
@@ -3305,6 +3305,8 @@ class BoxValidator:
 
             # If no exception was raised data contains well-formed XML
             containsWellformedXML = True
+        except MemoryError:
+            raise
         except Exception:
             # If parse raised error this is not well-formed XML
             containsWellformedXML = False
@@ -3315,6 +3317,8 @@ class BoxValidator:
                     data = bc.removeNullTerminator(data)
                     dataAsElement = ET.fromstring(data)
                     self.characteristics.append(dataAsElement)
+                except MemoryError:
+                    raise
                 except Exception:
                     pass
 
@@ -3359,7 +3363,9 @@ class BoxValidator:
 
                 # If no exception was raised data contains well-formed XML
                 containsWellformedXML = True
-            except BaseException:
+            except MemoryError:
+                raise
+            except Exception:
                 # If parse raised error this is not well-formed XML
                 containsWellformedXML = False
 
@@ -3370,7 +3376,9 @@ class BoxValidator:
                         data = bc.removeNullTerminator(data)
                         dataAsElement = ET.fromstring(data)
                         self.characteristics.append(dataAsElement)
-                    except BaseException:
+                    except MemoryError:
+                        raise
+                    except Exception:
                         pass
 
             self.testFor("containsWellformedXML", containsWellformedXML)
@@ -3564,13 +3572,13 @@ class BoxValidator:
         # Is the first box a Signature Box (ISO/IEC 15444-1 Section I.5.1)?
         try:
             firstBoxIsSignatureBox = boxTypes[0] == tagSignatureBox
-        except Exception:
+        except IndexError:
             firstBoxIsSignatureBox = False
 
         # Is the second box a File Type Box (ISO/IEC 15444-1 Section I.5.2)?
         try:
             secondBoxIsFileTypeBox = boxTypes[1] == tagFileTypeBox
-        except Exception:
+        except IndexError:
             secondBoxIsFileTypeBox = False
 
         # JP2 Header Box: after File Type box, before (first) contiguous codestream box
@@ -3584,7 +3592,7 @@ class BoxValidator:
                 locationJP2HeaderBoxIsValid = True
             else:
                 locationJP2HeaderBoxIsValid = False
-        except Exception:
+        except ValueError:
             locationJP2HeaderBoxIsValid = False
 
         self.testFor("firstBoxIsSignatureBox", firstBoxIsSignatureBox)
diff --git a/jpylyzer/byteconv.py b/jpylyzer/byteconv.py
index e134b77..3f57a77 100644
--- a/jpylyzer/byteconv.py
+++ b/jpylyzer/byteconv.py
@@ -29,7 +29,7 @@ def _doConv(bytestr, bOrder, formatCharacter):
     formatStr = bOrder + formatCharacter
     try:
         result = struct.unpack(formatStr, bytestr)[0]
-    except BaseException:
+    except (struct.error, TypeError):
         result = -9999
     return result
 
@@ -88,7 +88,7 @@ def bytesToInteger(bytestring):
     """
     try:
         result = int(binascii.hexlify(bytestring), 16)
-    except BaseException:
+    except (ValueError, TypeError):
         result = -9999
 
     return result
@@ -145,7 +145,7 @@ def bytesToText(bytestring):
         # Remove control characters
         result = removeControlCharacters(string)
 
-    except BaseException:
+    except UnicodeDecodeError:
         # Return empty string if bytestring cannot be decoded
         result = ""
 
diff --git a/jpylyzer/etpatch.py b/jpylyzer/etpatch.py
index 21cfa13..24f416f 100644
--- a/jpylyzer/etpatch.py
+++ b/jpylyzer/etpatch.py
@@ -59,10 +59,7 @@ class Element(ET.Element):
         Returned list contains 'Text' attribute of all matching sub-elements.
         Return empty list if element does not exist
         """
-        try:
-            return [result.text for result in self.findall(match)]
-        except BaseException:
-            return []
+        return [result.text for result in self.findall(match)]
 
     def appendChildTagWithText(self, tag, text):
         """Append childnode with text."""
-- 
2.43.0


From 14cb9e6ad5b16929698347af3ecb2667b81ba04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:00 +0000
Subject: [PATCH 14/45] fix: MIX output crashes on images without enumerated
 colour space or RDF description

---
 jpylyzer/mix.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 25bde6d..0727ceb 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -105,10 +105,13 @@ class Mix:
             mixBic.append(mixPI)
         else:
             mixPI = ET.Element('mix:PhotometricInterpretation')
-            colorSpace = properties.find(
-                'jp2HeaderBox/colourSpecificationBox/enumCS').text
-            mixPI.appendChildTagWithText('mix:colorSpace', colorSpace.strip())
-            mixBic.append(mixPI)
+            enumCS = properties.find(
+                'jp2HeaderBox/colourSpecificationBox/enumCS')
+            # JPH images don't necessarily have an enumerated colour space
+            if enumCS is not None:
+                mixPI.appendChildTagWithText(
+                    'mix:colorSpace', enumCS.text.strip())
+                mixBic.append(mixPI)
         mixBio.append(mixBic)
 
         mixSFC = ET.Element('mix:SpecialFormatCharacteristics')
@@ -159,7 +162,11 @@ class Mix:
         if value is not None:
             return value.text
 
-        value = prop.find(prefixPath).attrib.get(ns + tag, None)
+        parent = prop.find(prefixPath)
+        if parent is None:
+            return None
+
+        value = parent.attrib.get(ns + tag, None)
         if value and value is not None:
             return value
         return None
-- 
2.43.0


From 53d18cda04380eb94a6112c574f68675939eba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:02 +0000
Subject: [PATCH 15/45] fix: error while MIX output is generated aborts the
 whole run

---
 jpylyzer/jpylyzer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index d4394bd..cc11ffd 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -421,6 +421,9 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
         characteristics.makeHumanReadable(remapTable)
         warnings.makeHumanReadable()
 
+        if mixFlag != 0 and fileIsValid:
+            mixProperties = mix.Mix(mixFlag).generateMix(characteristics)
+
     except Exception as ex:
         fileIsValid = False
         success = False
@@ -442,9 +445,6 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
         warnings.appendChildTagWithText("warning", failureMessage)
         shared.printWarning(failureMessage)
 
-    if mixFlag != 0 and fileIsValid:
-        mixProperties = mix.Mix(mixFlag).generateMix(characteristics)
-
     fileInfo.appendChildTagWithText("fileSizeInBytes", str(fileSize))
     fileInfo.appendChildTagWithText("fileLastModified", lastModifiedDate)
 
-- 
2.43.0


From 11e5d90372dccd39a832d308696ee2c5418c0ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:02 +0000
Subject: [PATCH 16/45] fix: file names with control characters result in
 malformed XML or abort the run

---
 jpylyzer/jpylyzer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index cc11ffd..92f5515 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,6 +33,7 @@ Contributors:
 
 import sys
 import os
+import re
 import datetime
 import glob
 import argparse
@@ -351,10 +352,10 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     fileName = os.path.basename(path)
     filePath = os.path.abspath(path)
 
-    # If file name / path contain any surrogate pairs, remove them to
-    # avoid problems when writing to XML
-    fileNameCleaned = stripSurrogatePairs(fileName)
-    filePathCleaned = stripSurrogatePairs(filePath)
+    # If file name / path contain any surrogate pairs or control characters,
+    # remove them to avoid problems when writing to XML
+    fileNameCleaned = stripIllegalXMLCharacters(stripSurrogatePairs(fileName))
+    filePathCleaned = stripIllegalXMLCharacters(stripSurrogatePairs(filePath))
 
     # Produce some general tool and file meta info
     fileInfo.appendChildTagWithText("fileName", fileNameCleaned)
@@ -515,6 +516,11 @@ def stripSurrogatePairs(ustring):
     return ustring
 
 
+def stripIllegalXMLCharacters(ustring):
+    """Remove characters that cannot be represented in XML from a Unicode string."""
+    return re.sub('[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]', '', ustring)
+
+
 def getFiles(searchpattern):
     """Append paths of all files that match search pattern to EXISTING_FILES."""
     results = glob.glob(searchpattern)
-- 
2.43.0


From a509c542f8e384a2aaab176484addbeabfcb0d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:03 +0000
Subject: [PATCH 17/45] fix: repeated calls of checkFiles report files of
 previous calls again

---
 jpylyzer/jpylyzer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 92f5515..be55f7a 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -671,6 +671,9 @@ def checkFiles(recurse, paths):
     # Schema location
     locSchemaString = LOC_SCHEMA_STRING_2
 
+    # Forget files of any previous call
+    del EXISTING_FILES[:]
+
     # Find existing files in the given input path(s)
     findFiles(recurse, paths)
 
-- 
2.43.0


From 66369196560ce18ef4089be3f5eba77f9ff8e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:04 +0000
Subject: [PATCH 18/45] fix: warning that cannot be written to stderr changes
 the result or aborts the run

---
 jpylyzer/shared.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/shared.py b/jpylyzer/shared.py
index cff0ca9..a41fc04 100644
--- a/jpylyzer/shared.py
+++ b/jpylyzer/shared.py
@@ -19,16 +19,26 @@
 import sys
 
 
+def writeToStderr(msgString):
+    """Write msgString to stderr, if possible."""
+    try:
+        sys.stderr.write(msgString)
+    except (AttributeError, OSError, ValueError):
+        # stderr not available (e.g. windowed application), closed, full, or
+        # unable to encode the message
+        pass
+
+
 def printWarning(msg):
     """Print warning to stderr."""
     msgString = ("User warning: " + msg + "\n")
-    sys.stderr.write(msgString)
+    writeToStderr(msgString)
 
 
 def errorExit(msg):
     """Print error message to stderr and exit."""
     msgString = ("Error: " + msg + "\n")
-    sys.stderr.write(msgString)
+    writeToStderr(msgString)
     sys.exit()
 
 
-- 
2.43.0


From a8bf99e3574231de0620d7d1574409d3e06ca336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:05 +0000
Subject: [PATCH 19/45] fix: recursive wildcard skips subdirectories with
 brackets in their name

---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index be55f7a..511355a 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -539,7 +539,7 @@ def getFilesWithPatternFromTree(rootDir, pattern):
         for subdirname in dirnames:
             thisDirectory = os.path.join(dirname, subdirname)
             # find files matching the pattern in current path
-            searchpattern = os.path.join(thisDirectory, pattern)
+            searchpattern = os.path.join(glob.escape(thisDirectory), pattern)
             getFiles(searchpattern)
 
 
-- 
2.43.0


From 9a7d22543eb60a1e3279c0d93adda35959eed4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:06 +0000
Subject: [PATCH 20/45] fix: no warning for empty file if memory mapping is not
 available

---
 jpylyzer/jpylyzer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 511355a..16b5275 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -383,6 +383,11 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
         # Contents of file to memory map object
         if NO_MMAP_LIB:
             fileData = fileToBytes(path)
+            if not fileData:
+                # Same warning as with memory mapping
+                msg = "empty file " + path
+                fmmWarnings.append(msg)
+                shared.printWarning(msg)
         else:
             fileData, fmmWarnings = fileToMemoryMap(path)
 
-- 
2.43.0


From 44bffcca5bffd9856c8c08807e3aa86160383bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:03 +0000
Subject: [PATCH 21/45] fix: damaged length of PRF and CPF marker segments
 makes analysis take minutes

---
 jpylyzer/boxvalidator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index bdedcf1..1a47b4b 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2885,8 +2885,8 @@ class BoxValidator:
         # lprf  must be within range 4-65534
         self.testFor("lprfIsValid", 4 <= lprf <= 65534)
 
-        # Number of pprf entries
-        nopprfs = int((lprf - 2) / 2)
+        # Number of pprf entries (don't over-read on bad lprf)
+        nopprfs = int((min(lprf, len(self.boxContents)) - 2) / 2)
 
         # Profile number (updated from pprf values below)
         PRFnum = 4095
@@ -2894,7 +2894,7 @@ class BoxValidator:
 
         for i in range(nopprfs):
             pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
-            PRFnum += pprf * 2 ** (16 * i)
+            PRFnum += pprf << (16 * i)
             if i == nopprfs:
                 # last pprf shall not be zero
                 self.testFor("pprfIsValid", pprf != 0)
@@ -2913,8 +2913,8 @@ class BoxValidator:
         if self.format in ['jph', 'jhc']:
             self.testFor("lcpIsValid", 4 <= lcpf <= 65534)
 
-        # Number of pcpf entries
-        nopcpfs = int((lcpf - 2) / 2)
+        # Number of pcpf entries (don't over-read on bad lcpf)
+        nopcpfs = int((min(lcpf, len(self.boxContents)) - 2) / 2)
 
         # Profile number (updated from ppf values below)
         CPFnum = -1
@@ -2922,7 +2922,7 @@ class BoxValidator:
 
         for i in range(nopcpfs):
             pcpf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
-            CPFnum += pcpf * 2 ** (16 * i)
+            CPFnum += pcpf << (16 * i)
             if i == nopcpfs:
                 # last pcpf shall not be zero
                 if self.format in ['jph', 'jhc']:
-- 
2.43.0


From 53c58f13a584c387ded9c0dda927cece999f89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:40 +0000
Subject: [PATCH 22/45] fix: damaged number of components or channels makes
 analysis take minutes

---
 jpylyzer/boxvalidator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 1a47b4b..6089f62 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1083,6 +1083,10 @@ class BoxValidator:
         # Loop through box contents and validate fields
         offset = 2
         for _ in range(n):
+            if offset > len(self.boxContents):
+                # Don't over-read on bad n
+                break
+
             # Channel index
             cN = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             self.addCharacteristic("cN", cN)
@@ -1954,6 +1958,10 @@ class BoxValidator:
         offset = 38
 
         for _ in range(csiz):
+            if offset > len(self.boxContents):
+                # Don't over-read on bad csiz
+                break
+
             # ssiz (=bits per component)
             ssiz = bc.bytesToUnsignedChar(self.boxContents[offset:offset + 1])
 
@@ -2718,6 +2726,10 @@ class BoxValidator:
         offset = 2
 
         for _ in range(self.csiz):
+            if offset > len(self.boxContents):
+                # Don't over-read on bad csiz
+                break
+
             # Horizontal offset value, in units of 1/65535 of xRsiz
             xcrg = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             self.addCharacteristic("xcrg", xcrg)
-- 
2.43.0


From cd8cd4d2aabf34756c914759cce76d98f687aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:33 +0000
Subject: [PATCH 23/45] fix: damaged palette dimensions make analysis read far
 beyond the palette

---
 jpylyzer/boxvalidator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 6089f62..9da936a 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1003,6 +1003,10 @@ class BoxValidator:
             offset = nPC + 3 + i * (nE * bytesPadded)
 
             for _ in range(nE):
+                if offset > len(self.boxContents):
+                    # Don't over-read on bad nE, nPC or bDepth
+                    break
+
                 # Get bytes for this entry
                 cPAsBytes = self.boxContents[offset:offset + bytesPadded]
 
-- 
2.43.0


From b327dea2682f117de1fa6c4c02d9c5a97e87ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:42 +0000
Subject: [PATCH 24/45] fix: namespace names with spaces in embedded XML abort
 the run

---
 jpylyzer/jpylyzer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 16b5275..2ba7542 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -38,7 +38,7 @@ import datetime
 import glob
 import argparse
 import codecs
-from xml.dom import minidom
+from xml.dom import expatbuilder
 from . import config
 from . import etpatch as ET
 from . import boxvalidator as bv
@@ -654,8 +654,9 @@ def writeElement(elt, codec):
     xmlOut = ET.tostring(elt, 'unicode', 'xml')
 
     if not config.NO_PRETTY_XML_FLAG:
-        # Make xml pretty
-        xmlPretty = minidom.parseString(xmlOut).toprettyxml('    ')
+        # Make xml pretty. Names are taken as they are: namespace processing would
+        # fail on namespace names in embedded XML that contain spaces
+        xmlPretty = expatbuilder.parseString(xmlOut, False).toprettyxml('    ')
 
         # Steps to get rid of xml declaration:
         # String to list
-- 
2.43.0


From dd60c79db71b1f0f30c95c832fb14074def2d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:18 +0000
Subject: [PATCH 25/45] fix: palette values are taken from wrong entries and
 columns

ISO/IEC 15444-1 I.5.3.4: the values of all columns are stored together
for each entry, each with the padded size of its own column.
---
 jpylyzer/boxvalidator.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 9da936a..7710357 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -972,6 +972,12 @@ class BoxValidator:
         # nPC within range 1-255
         self.testFor("nPCIsValid", 1 <= nPC <= 255)
 
+        # Size of each column's values in bytes (padded to a multiple of 8 bits)
+        columnSizes = [
+            ((bc.bytesToUnsignedChar(self.boxContents[3 + i:4 + i]) & 127) + 8) // 8
+            for i in range(nPC)]
+        entrySize = sum(columnSizes)
+
         # Following parameters are repeated for each column
         for i in range(nPC):
 
@@ -996,11 +1002,11 @@ class BoxValidator:
             # If bDepth is not a multiple of 8 bits add padding bits
             # E.g. if bDepth is 10, bDepthPadded will be 16 bits, and
             # C value will be stored in low 10 bits of 16-bit field
-            bDepthPadded = math.ceil(bDepth / 8) * 8
-            bytesPadded = int(bDepthPadded / 8)
+            bytesPadded = columnSizes[i]
 
-            # Start offset of cP entries for this column
-            offset = nPC + 3 + i * (nE * bytesPadded)
+            # Start offset of cP entries for this column (the values of all columns
+            # are stored together for each entry)
+            offset = nPC + 3 + sum(columnSizes[:i])
 
             for _ in range(nE):
                 if offset > len(self.boxContents):
@@ -1015,7 +1021,7 @@ class BoxValidator:
                 cP = bc.bytesToInteger(cPAsBytes)
                 self.addCharacteristic("cP", cP)
 
-                offset += bytesPadded
+                offset += entrySize
 
     def validate_componentMappingBox(self):
         """Component mapping box (ISO/IEC 15444-1 Section I.5.3.5).
-- 
2.43.0


From 0853e67d2acd3f8a82b983928c69c88db8f1620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:18 +0000
Subject: [PATCH 26/45] fix: ICC profile flags and device attributes are read
 from wrong bits

Bits 0, 1, ... of these big-endian fields are the least significant ones,
which are stored in the last byte.
---
 jpylyzer/boxvalidator.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 7710357..96e5dba 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -821,17 +821,17 @@ class BoxValidator:
         primaryPlatform = self.boxContents[40:44]
         self.addCharacteristic("primaryPlatform", primaryPlatform)
 
-        # Profile flags (bytes 44-47; only first byte read here as remaining bytes
-        # don't contain any meaningful information)
-        profileFlags = bc.bytesToUnsignedChar(self.boxContents[44:45])
+        # Profile flags (bytes 44-47; only least significant byte read here as remaining
+        # bytes don't contain any meaningful information)
+        profileFlags = bc.bytesToUnsignedChar(self.boxContents[47:48])
 
         # Embedded profile (0 if not embedded, 1 if embedded in file)
-        embeddedProfile = self._getBitValue(profileFlags, 1)
+        embeddedProfile = self._getBitValue(profileFlags, 8)
         self.addCharacteristic("embeddedProfile", embeddedProfile)
 
         # Profile cannot be used independently from embedded colour data
         # (1 if true, 0 if false)
-        profileCannotBeUsedIndependently = self._getBitValue(profileFlags, 2)
+        profileCannotBeUsedIndependently = self._getBitValue(profileFlags, 7)
         self.addCharacteristic(
             "profileCannotBeUsedIndependently",
             profileCannotBeUsedIndependently)
@@ -844,24 +844,24 @@ class BoxValidator:
         deviceModel = self.boxContents[52:56]
         self.addCharacteristic("deviceModel", deviceModel)
 
-        # Device attributes (bytes 56-63; only first byte read here as remaining bytes
-        # don't contain any meaningful information)
-        deviceAttributes = bc.bytesToUnsignedChar(self.boxContents[56:57])
+        # Device attributes (bytes 56-63; only least significant byte read here as remaining
+        # bytes don't contain any meaningful information)
+        deviceAttributes = bc.bytesToUnsignedChar(self.boxContents[63:64])
 
         # Transparency (1 = transparent; 0 = reflective)
-        transparency = self._getBitValue(deviceAttributes, 1)
+        transparency = self._getBitValue(deviceAttributes, 8)
         self.addCharacteristic("transparency", transparency)
 
         # Glossiness (1 = matte; 0 = glossy)
-        glossiness = self._getBitValue(deviceAttributes, 2)
+        glossiness = self._getBitValue(deviceAttributes, 7)
         self.addCharacteristic("glossiness", glossiness)
 
         # Media polarity (1 = negative; 0 = positive)
-        polarity = self._getBitValue(deviceAttributes, 3)
+        polarity = self._getBitValue(deviceAttributes, 6)
         self.addCharacteristic("polarity", polarity)
 
         # Media colour (1 = black & white; 0 = colour)
-        colour = self._getBitValue(deviceAttributes, 4)
+        colour = self._getBitValue(deviceAttributes, 5)
         self.addCharacteristic("colour", colour)
 
         # Rendering intent (bytes 64-67, only least-significant 2 bytes used)
-- 
2.43.0


From 8e540ea4ba3839b4d16d0f7c225ff426a3e3f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:18 +0000
Subject: [PATCH 27/45] fix: compression ratio of codestreams uses horizontal
 for vertical offset

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 96e5dba..c1e40aa 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1767,7 +1767,7 @@ class BoxValidator:
                 # Calculate compression ratio
                 ssizDepthValues = characteristicsSIZ.findAllText('ssizDepth')
                 ysiz = characteristicsSIZ.findElementText('ysiz')
-                yOsiz = characteristicsSIZ.findElementText('xOsiz')
+                yOsiz = characteristicsSIZ.findElementText('yOsiz')
                 xsiz = characteristicsSIZ.findElementText('xsiz')
                 xOsiz = characteristicsSIZ.findElementText('xOsiz')
 
-- 
2.43.0


From 775c7a445e3974f55f702c8ca3d8f66cd61ac16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:18 +0000
Subject: [PATCH 28/45] fix: quantization style of QCC is reported as first
 quantization value

---
 jpylyzer/boxvalidator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index c1e40aa..71c7f10 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2582,6 +2582,9 @@ class BoxValidator:
         guardBits = (sqcc >> 5) & 7
         self.addCharacteristic("guardBits", guardBits)
 
+        # Quantization values follow after sqcc
+        offset += 1
+
         # Get number of decomposition levels from re-arrranged form of Eq A-5
         # (TODO: cross-check with info from COD, COC, see:
         # https://github.com/openpreserve/jpylyzer/issues/132)
-- 
2.43.0


From 4562b3c1937d263259c82018078e4d1a60c55c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:18 +0000
Subject: [PATCH 29/45] fix: profile numbers are calculated from first value of
 PRF and CPF only

---
 jpylyzer/boxvalidator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 71c7f10..1822ba6 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2920,6 +2920,7 @@ class BoxValidator:
         for i in range(nopprfs):
             pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             PRFnum += pprf << (16 * i)
+            offset += 2
             if i == nopprfs:
                 # last pprf shall not be zero
                 self.testFor("pprfIsValid", pprf != 0)
@@ -2948,6 +2949,7 @@ class BoxValidator:
         for i in range(nopcpfs):
             pcpf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             CPFnum += pcpf << (16 * i)
+            offset += 2
             if i == nopcpfs:
                 # last pcpf shall not be zero
                 if self.format in ['jph', 'jhc']:
-- 
2.43.0


From 1cbdec7f83d2363883aea8adbd12be7528c38c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:18 +0000
Subject: [PATCH 30/45] fix: only half of each number in the date of ICC
 profiles is read

---
 jpylyzer/boxvalidator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 1822ba6..295cdf7 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -803,11 +803,11 @@ class BoxValidator:
 
         # Date and time fields
         year = bc.bytesToUShortInt(self.boxContents[24:26])
-        month = bc.bytesToUnsignedChar(self.boxContents[27:28])
-        day = bc.bytesToUnsignedChar(self.boxContents[29:30])
-        hour = bc.bytesToUnsignedChar(self.boxContents[31:32])
-        minute = bc.bytesToUnsignedChar(self.boxContents[33:34])
-        second = bc.bytesToUnsignedChar(self.boxContents[35:36])
+        month = bc.bytesToUShortInt(self.boxContents[26:28])
+        day = bc.bytesToUShortInt(self.boxContents[28:30])
+        hour = bc.bytesToUShortInt(self.boxContents[30:32])
+        minute = bc.bytesToUShortInt(self.boxContents[32:34])
+        second = bc.bytesToUShortInt(self.boxContents[34:36])
         dateString = "%d/%02d/%02d" % (year, month, day)
         timeString = "%02d:%02d:%02d" % (hour, minute, second)
         dateTimeString = "%s, %s" % (dateString, timeString)
-- 
2.43.0


From feeba50c6cdb840de5725b34dcbec81d0e7c2ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:54 +0000
Subject: [PATCH 31/45] fix: negative illuminants of ICC profiles are reported
 as large positive numbers

XYZ numbers are signed (s15Fixed16Number).
---
 jpylyzer/boxvalidator.py | 6 +++---
 jpylyzer/byteconv.py     | 8 ++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 295cdf7..2d04d40 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -870,17 +870,17 @@ class BoxValidator:
 
         # Profile connection space illuminants (X, Y, Z)
         connectionSpaceIlluminantX = round(
-            bc.bytesToUInt(self.boxContents[68:72]) / 65536, 4)
+            bc.bytesToSignedInt(self.boxContents[68:72]) / 65536, 4)
         self.addCharacteristic(
             "connectionSpaceIlluminantX", connectionSpaceIlluminantX)
 
         connectionSpaceIlluminantY = round(
-            bc.bytesToUInt(self.boxContents[72:76]) / 65536, 4)
+            bc.bytesToSignedInt(self.boxContents[72:76]) / 65536, 4)
         self.addCharacteristic(
             "connectionSpaceIlluminantY", connectionSpaceIlluminantY)
 
         connectionSpaceIlluminantZ = round(
-            bc.bytesToUInt(self.boxContents[76:80]) / 65536, 4)
+            bc.bytesToSignedInt(self.boxContents[76:80]) / 65536, 4)
         self.addCharacteristic(
             "connectionSpaceIlluminantZ", connectionSpaceIlluminantZ)
 
diff --git a/jpylyzer/byteconv.py b/jpylyzer/byteconv.py
index 3f57a77..14ab6d4 100644
--- a/jpylyzer/byteconv.py
+++ b/jpylyzer/byteconv.py
@@ -50,6 +50,14 @@ def bytesToUInt(bytestring):
     return _doConv(bytestring, ">", "I")
 
 
+def bytesToSignedInt(bytestring):
+    """Unpack 4 byte string to signed integer.
+
+    Assuming big-endian byte order.
+    """
+    return _doConv(bytestring, ">", "i")
+
+
 def bytesToUShortInt(bytestring):
     """Unpack 2 byte string to unsigned short integer.
 
-- 
2.43.0


From 780f652df993698ff3d7b875dba9be0bf85d16ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:25 +0000
Subject: [PATCH 32/45] fix: packet lengths stored in more than two bytes are
 reported wrong

---
 jpylyzer/boxvalidator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 2d04d40..22b17cf 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -276,10 +276,10 @@ class BoxValidator:
                 ipl_i_len += 1
 
             # Join all the segments together
-            iplt_i = bc.bytesToUnsignedChar(self.boxContents[i:i + 1])
-            for ipl_index in range(1, ipl_i_len):
-                iplt_i = (iplt_i & 0x7F) << 7
-                iplt_i |= bc.bytesToUnsignedChar(
+            iplt_i = 0
+            for ipl_index in range(ipl_i_len):
+                iplt_i <<= 7
+                iplt_i |= 0x7F & bc.bytesToUnsignedChar(
                     self.boxContents[i + ipl_index:i + ipl_index + 1])
 
             i += ipl_i_len
-- 
2.43.0


From 35f05c8cf810b768e894cb13abe1e0ace34d9a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:40 +0000
Subject: [PATCH 33/45] fix: image header with undefined bit depth passes test
 of bit depth

Only 255 indicates that components vary in bit depth.
---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 22b17cf..18c55bc 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -539,7 +539,7 @@ class BoxValidator:
         # 1. bPCDepth in range 1-38 (including limits)
         # 2. OR bPC equal 255 (indicating that components vary in bit depth)
         bPCDepthIsWithinAllowedRange = 1 <= bPCDepth <= 38
-        bitDepthIsVariable = 1 <= bPC <= 255
+        bitDepthIsVariable = bPC == 255
 
         if bPCDepthIsWithinAllowedRange or bitDepthIsVariable:
             bPCIsValid = True
-- 
2.43.0


From 7afe2dfa5a7209a12aa9418751b621081328676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:40 +0000
Subject: [PATCH 34/45] fix: last value of PRF and CPF marker segments is never
 tested

---
 jpylyzer/boxvalidator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 18c55bc..e23acb1 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2921,7 +2921,7 @@ class BoxValidator:
             pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             PRFnum += pprf << (16 * i)
             offset += 2
-            if i == nopprfs:
+            if i == nopprfs - 1:
                 # last pprf shall not be zero
                 self.testFor("pprfIsValid", pprf != 0)
 
@@ -2950,7 +2950,7 @@ class BoxValidator:
             pcpf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             CPFnum += pcpf << (16 * i)
             offset += 2
-            if i == nopcpfs:
+            if i == nopcpfs - 1:
                 # last pcpf shall not be zero
                 if self.format in ['jph', 'jhc']:
                     self.testFor("pcpfIsValid", pcpf != 0)
-- 
2.43.0


From ab46d60798fbee2113db60b11984d1f9f718c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:40 +0000
Subject: [PATCH 35/45] fix: missing CAP marker segment is not detected if rsiz
 also refers to part 2

---
 jpylyzer/boxvalidator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index e23acb1..6481408 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1634,8 +1634,8 @@ class BoxValidator:
             # are defined there
             rsiz = self.characteristics.findElementText(
                 'siz/rsiz')
-            # Two most significant bits of rsiz indicate CAP marker use
-            if (rsiz >> 14) & 15 == 1:
+            # Second most significant bit of rsiz indicates CAP marker use
+            if (rsiz >> 14) & 1 == 1:
                 self.testFor("foundCAPMarker", foundCAPMarker)
 
             # Remainder of codestream is a sequence of tile parts, followed by one
-- 
2.43.0


From 9772a8cbed2a9740de781e4d6f58f8b627a574cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:40 +0000
Subject: [PATCH 36/45] fix: JP2 header box before file type box passes test of
 its location

---
 jpylyzer/boxvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 6481408..373082b 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -3611,11 +3611,13 @@ class BoxValidator:
         # JP2 Header Box: after File Type box, before (first) contiguous codestream box
         # (ISO/IEC 15444-1 Section I.5.3)?
         try:
+            positionFileTypeBox = boxTypes.index(tagFileTypeBox)
             positionJP2HeaderBox = boxTypes.index(tagJP2HeaderBox)
             positionFirstContiguousCodestreamBox = boxTypes.index(
                 tagContiguousCodestreamBox)
 
-            if positionFirstContiguousCodestreamBox > positionJP2HeaderBox > 1:
+            if positionFirstContiguousCodestreamBox > positionJP2HeaderBox > \
+                    positionFileTypeBox:
                 locationJP2HeaderBoxIsValid = True
             else:
                 locationJP2HeaderBoxIsValid = False
-- 
2.43.0


From 5485875f1807c4589a6a63bd81bcbc7294a56fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:40 +0000
Subject: [PATCH 37/45] fix: wrong test of tile-part numbers if tnsot is 0 or
 differs within a tile

A value of 0 means that the number is not defined; other values must be
the same in all tile-parts of a tile.
---
 jpylyzer/boxvalidator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 373082b..bdffab0 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1657,8 +1657,8 @@ class BoxValidator:
             # Create list with one entry for each tile
             tileIndices = []
 
-            # Dictionary that contains expected number of tile parts for each
-            # tile
+            # Dictionary that contains expected number(s) of tile parts for each
+            # tile (a tile may also leave its number of tile parts undefined)
             tilePartsPerTileExpected = {}
 
             # Dictionary that contains found number of tile parts for each tile
@@ -1699,7 +1699,8 @@ class BoxValidator:
                         tileIndices.append(tileIndex)
                     # Expected number of tile-parts for each tile to dictionary
                     if tilePartsOfTile != 0:
-                        tilePartsPerTileExpected[tileIndex] = tilePartsOfTile
+                        tilePartsPerTileExpected.setdefault(
+                            tileIndex, set()).add(tilePartsOfTile)
 
                     # Increase found number of tile-parts for this tile by 1
                     try:
@@ -1726,7 +1727,8 @@ class BoxValidator:
             # Found numbers of tile	parts per tile must match expected
             if tilePartsPerTileExpected:
                 self.testFor("foundExpectedNumberOfTileParts",
-                            tilePartsPerTileExpected == tilePartsPerTileFound)
+                            all(expected == {tilePartsPerTileFound.get(i)} for
+                                i, expected in tilePartsPerTileExpected.items()))
 
             # Add tile-part tests, characteristics and warnings to tree
             self.tests.appendIfNotEmpty(tilePartTests)
-- 
2.43.0


From d149739f8e26341847f5cf12af6bd5c90518d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:27 +0000
Subject: [PATCH 38/45] fix: capture metadata in attributes of a second XMP
 description is left out of MIX

---
 jpylyzer/mix.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 0727ceb..9d3bb73 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -162,13 +162,11 @@ class Mix:
         if value is not None:
             return value.text
 
-        parent = prop.find(prefixPath)
-        if parent is None:
-            return None
-
-        value = parent.attrib.get(ns + tag, None)
-        if value and value is not None:
-            return value
+        # Properties may be divided over several descriptions
+        for parent in prop.findall(prefixPath):
+            value = parent.attrib.get(ns + tag, None)
+            if value and value is not None:
+                return value
         return None
 
     @staticmethod
-- 
2.43.0


From df3f76d1a9466a4203ebeec7da454d3ec8b4b0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:43 +0000
Subject: [PATCH 39/45] fix: sampling frequency in MIX is cut off instead of
 rounded

---
 jpylyzer/mix.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 9d3bb73..4f190e6 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -262,26 +262,30 @@ class Mix:
             'jp2HeaderBox/resolutionBox/captureResolutionBox')
         if resolutionBox is not None:
             numX = int(
-                float(
-                    resolutionBox.find('hRescInPixelsPerMeter').text) *
-                100)
+                round(
+                    float(
+                        resolutionBox.find('hRescInPixelsPerMeter').text) *
+                    100))
             numY = int(
-                float(
-                    resolutionBox.find('vRescInPixelsPerMeter').text) *
-                100)
+                round(
+                    float(
+                        resolutionBox.find('vRescInPixelsPerMeter').text) *
+                    100))
         else:
             # Then try the displayResolutionBox
             resolutionBox = properties.find(
                 'jp2HeaderBox/resolutionBox/displayResolutionBox')
             if resolutionBox is not None:
                 numX = int(
-                    float(
-                        resolutionBox.find('hResdInPixelsPerMeter').text) *
-                    100)
+                    round(
+                        float(
+                            resolutionBox.find('hResdInPixelsPerMeter').text) *
+                        100))
                 numY = int(
-                    float(
-                        resolutionBox.find('vResdInPixelsPerMeter').text) *
-                    100)
+                    round(
+                        float(
+                            resolutionBox.find('vResdInPixelsPerMeter').text) *
+                        100))
         if resolutionBox is not None:
             mixSm = ET.Element('mix:SpatialMetrics')
             if self.mixFlag == 1:
-- 
2.43.0


From 1d39bde256b39bc74bd0a8802ee0a710e14396be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:32 +0000
Subject: [PATCH 40/45] fix: output schema rejects the video range flag, which
 is reported as yes or no

---
 xsd/jpylyzer-v-2-2.xsd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd/jpylyzer-v-2-2.xsd b/xsd/jpylyzer-v-2-2.xsd
index f812e44..111afc1 100644
--- a/xsd/jpylyzer-v-2-2.xsd
+++ b/xsd/jpylyzer-v-2-2.xsd
@@ -274,7 +274,7 @@
   <xs:element name="colPrims" type="xs:integer"/>
   <xs:element name="transfC" type="xs:integer"/>
   <xs:element name="matCoeffs" type="xs:integer"/>
-  <xs:element name="vidFRng" type="xs:integer"/>
+  <xs:element name="vidFRng" type="xs:string"/>
 
   <xs:element name="icc">
     <xs:complexType>
-- 
2.43.0


From cc401eec5f66f6337945a324a9e91b0da878bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:32 +0000
Subject: [PATCH 41/45] fix: output schema rejects resolutions in scientific
 notation

---
 xsd/jpylyzer-v-2-2.xsd | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/xsd/jpylyzer-v-2-2.xsd b/xsd/jpylyzer-v-2-2.xsd
index 111afc1..c8bc622 100644
--- a/xsd/jpylyzer-v-2-2.xsd
+++ b/xsd/jpylyzer-v-2-2.xsd
@@ -417,10 +417,10 @@
   <xs:element name="hRcD" type="xs:integer"/>
   <xs:element name="vRcE" type="xs:integer"/>
   <xs:element name="hRcE" type="xs:integer"/>
-  <xs:element name="vRescInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="hRescInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="vRescInPixelsPerInch" type="xs:decimal"/>
-  <xs:element name="hRescInPixelsPerInch" type="xs:decimal"/>  
+  <xs:element name="vRescInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="hRescInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="vRescInPixelsPerInch" type="xs:double"/>
+  <xs:element name="hRescInPixelsPerInch" type="xs:double"/>  
   
   <xs:element name="displayResolutionBox">
     <xs:complexType>
@@ -445,10 +445,10 @@
   <xs:element name="hRdD" type="xs:integer"/>
   <xs:element name="vRdE" type="xs:integer"/>
   <xs:element name="hRdE" type="xs:integer"/>
-  <xs:element name="vResdInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="hResdInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="vResdInPixelsPerInch" type="xs:decimal"/>
-  <xs:element name="hResdInPixelsPerInch" type="xs:decimal"/>  
+  <xs:element name="vResdInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="hResdInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="vResdInPixelsPerInch" type="xs:double"/>
+  <xs:element name="hResdInPixelsPerInch" type="xs:double"/>  
   
   <xs:element name="intellectualPropertyBox">
     <xs:complexType>
-- 
2.43.0


From f11a81a51ac88e8007102f4dad22d6859fc6f5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:32 +0000
Subject: [PATCH 42/45] fix: output schema rejects boxes and marker segments
 whose list of entries is empty

---
 xsd/jpylyzer-v-2-2.xsd | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xsd/jpylyzer-v-2-2.xsd b/xsd/jpylyzer-v-2-2.xsd
index c8bc622..7b58648 100644
--- a/xsd/jpylyzer-v-2-2.xsd
+++ b/xsd/jpylyzer-v-2-2.xsd
@@ -201,7 +201,7 @@
       <xs:sequence>
         <xs:element ref="br"/>
         <xs:element ref="minV"/>
-        <xs:element ref="cL" maxOccurs="unbounded"/>
+        <xs:element ref="cL" minOccurs="0" maxOccurs="unbounded"/>
       </xs:sequence>
     </xs:complexType>
   </xs:element>
@@ -244,7 +244,7 @@
 
   <xs:element name="bitsPerComponentBox">  
     <xs:complexType>
-      <xs:sequence maxOccurs="unbounded">
+      <xs:sequence minOccurs="0" maxOccurs="unbounded">
         <xs:element ref="bPCSign"/>
         <xs:element ref="bPCDepth"/>
       </xs:sequence>
@@ -339,7 +339,7 @@
       <xs:sequence>
         <xs:element ref="nE"/>
         <xs:element ref="nPC"/>
-          <xs:sequence maxOccurs="unbounded">
+          <xs:sequence minOccurs="0" maxOccurs="unbounded">
             <xs:element ref="bSign"/>
             <xs:element ref="bDepth"/>
             <xs:element ref="cP" minOccurs="0" maxOccurs="unbounded"/>
@@ -356,7 +356,7 @@
 
   <xs:element name="componentMappingBox">
     <xs:complexType>
-      <xs:sequence maxOccurs="unbounded">
+      <xs:sequence minOccurs="0" maxOccurs="unbounded">
         <xs:element ref="cMP"/>
         <xs:element ref="mTyp"/>
         <xs:element ref="pCol"/>
@@ -372,7 +372,7 @@
     <xs:complexType>
       <xs:sequence>
         <xs:element ref="n"/>
-        <xs:sequence maxOccurs="unbounded">
+        <xs:sequence minOccurs="0" maxOccurs="unbounded">
           <xs:element ref="cN"/>
           <xs:element ref="cTyp"/>
           <xs:element ref="cAssoc"/>
@@ -487,7 +487,7 @@
     <xs:complexType>
       <xs:sequence>
         <xs:element ref="nU"/>
-        <xs:element ref="uuid" maxOccurs="unbounded"/>
+        <xs:element ref="uuid" minOccurs="0" maxOccurs="unbounded"/>
       </xs:sequence>
     </xs:complexType>
   </xs:element>
@@ -561,7 +561,7 @@
         <xs:element ref="yTOsiz"/>
         <xs:element ref="numberOfTiles"/>
         <xs:element ref="csiz"/>
-        <xs:sequence maxOccurs="unbounded">
+        <xs:sequence minOccurs="0" maxOccurs="unbounded">
           <xs:element ref="ssizSign"/>
           <xs:element ref="ssizDepth"/>
           <xs:element ref="xRsiz"/>
@@ -782,7 +782,7 @@
     <xs:complexType>
       <xs:sequence>
         <xs:element ref="lpoc"/>
-        <xs:sequence maxOccurs="unbounded">
+        <xs:sequence minOccurs="0" maxOccurs="unbounded">
           <xs:element ref="rspoc"/>
           <xs:element ref="cspoc"/>
           <xs:element ref="lyepoc"/>
@@ -805,7 +805,7 @@
     <xs:complexType>
       <xs:sequence>
         <xs:element ref="lcrg"/>
-        <xs:sequence maxOccurs="unbounded">
+        <xs:sequence minOccurs="0" maxOccurs="unbounded">
           <xs:element ref="xcrg"/>
           <xs:element ref="ycrg"/>
         </xs:sequence>
-- 
2.43.0


From bf466a08db0320b670e0e3861cf1e8e4eff58ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:32 +0000
Subject: [PATCH 43/45] fix: output schema rejects profile numbers in
 hexadecimal notation

---
 xsd/jpylyzer-v-2-2.xsd | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/xsd/jpylyzer-v-2-2.xsd b/xsd/jpylyzer-v-2-2.xsd
index 7b58648..df9b504 100644
--- a/xsd/jpylyzer-v-2-2.xsd
+++ b/xsd/jpylyzer-v-2-2.xsd
@@ -625,7 +625,19 @@
   </xs:element>
 
   <xs:element name="lprf" type="xs:integer"/>
-  <xs:element name="PRFnum" type="xs:integer"/>
+  <xs:element name="PRFnum" type="profileNumber"/>
+
+  <!-- Profile numbers that are too large for decimal notation are reported in
+       hexadecimal notation -->
+  <xs:simpleType name="profileNumber">
+    <xs:union memberTypes="xs:integer">
+      <xs:simpleType>
+        <xs:restriction base="xs:string">
+          <xs:pattern value="-?0x[0-9a-f]+"/>
+        </xs:restriction>
+      </xs:simpleType>
+    </xs:union>
+  </xs:simpleType>
 
   <xs:element name="cpf">
     <xs:complexType>
@@ -637,7 +649,7 @@
   </xs:element>
 
   <xs:element name="lcpf" type="xs:integer"/>
-  <xs:element name="CPFnum" type="xs:integer"/>
+  <xs:element name="CPFnum" type="profileNumber"/>
 
   <xs:element name="cod">
     <xs:complexType>
-- 
2.43.0


From 0d50723b3fcdcf11da4efb7b012f488a87ade9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:33 +0000
Subject: [PATCH 44/45] fix: unreadable code block size is reported as 0.0,
 which is not a number of samples

---
 jpylyzer/boxvalidator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index bdffab0..d49ef69 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2102,7 +2102,7 @@ class BoxValidator:
         # value)
         codeBlockWidthExponent = bc.bytesToUnsignedChar(
             self.boxContents[8:9]) + 2
-        self.addCharacteristic("codeBlockWidth", 2 ** codeBlockWidthExponent)
+        self.addCharacteristic("codeBlockWidth", int(2 ** codeBlockWidthExponent))
 
         # Value within range 2-10
         codeBlockWidthExponentIsValid = 2 <= codeBlockWidthExponent <= 10
@@ -2113,7 +2113,7 @@ class BoxValidator:
         # value)
         codeBlockHeightExponent = bc.bytesToUnsignedChar(
             self.boxContents[9:10]) + 2
-        self.addCharacteristic("codeBlockHeight", 2 ** codeBlockHeightExponent)
+        self.addCharacteristic("codeBlockHeight", int(2 ** codeBlockHeightExponent))
 
         # Value within range 2-10
         codeBlockHeightExponentIsValid = 2 <= codeBlockHeightExponent <= 10
@@ -2289,7 +2289,7 @@ class BoxValidator:
         # value)
         codeBlockWidthExponent = bc.bytesToUnsignedChar(
             self.boxContents[offset:offset + 1]) + 2
-        self.addCharacteristic("codeBlockWidth", 2 ** codeBlockWidthExponent)
+        self.addCharacteristic("codeBlockWidth", int(2 ** codeBlockWidthExponent))
 
         # Value within range 2-10
         codeBlockWidthExponentIsValid = 2 <= codeBlockWidthExponent <= 10
@@ -2302,7 +2302,7 @@ class BoxValidator:
         # value)
         codeBlockHeightExponent = bc.bytesToUnsignedChar(
             self.boxContents[offset:offset + 1]) + 2
-        self.addCharacteristic("codeBlockHeight", 2 ** codeBlockHeightExponent)
+        self.addCharacteristic("codeBlockHeight", int(2 ** codeBlockHeightExponent))
 
         # Value within range 2-10
         codeBlockHeightExponentIsValid = 2 <= codeBlockHeightExponent <= 10
-- 
2.43.0


From 9673c74a1bb046e5e0b7b9355f9d514b68fac2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:11 +0000
Subject: [PATCH 45/45] fix: report loses bytes silently when Python runs
 unbuffered and the output accepts only a part of a write

---
 jpylyzer/jpylyzer.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 2ba7542..3b22062 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -31,6 +31,8 @@ Contributors:
 # You should have received a copy of the GNU Lesser General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import errno
+import io
 import sys
 import os
 import re
@@ -647,6 +649,22 @@ def findFiles(recurse, paths):
                 getFilesFromTree(root)
 
 
+class CompleteWriter:
+    """Writer for a raw stream, which may accept only a part of the data at once."""
+
+    def __init__(self, stream):
+        self.stream = stream
+
+    def write(self, data):
+        """Write all of data."""
+        remaining = memoryview(data)
+        while len(remaining) > 0:
+            written = self.stream.write(remaining)
+            if written is None:
+                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
+            remaining = remaining[written:]
+
+
 def writeElement(elt, codec):
     """Write element as XML to stdout using defined codec."""
 
@@ -688,6 +706,9 @@ def checkFiles(recurse, paths):
 
     # Set encoding of the terminal to UTF-8
     out = codecs.getwriter(config.UTF8_ENCODING)(sys.stdout.buffer)
+    if isinstance(out.stream, io.RawIOBase):
+        # Python runs with unbuffered output
+        out.stream = CompleteWriter(out.stream)
 
     # Wrap the xml output in <jpylyzer> element
 
-- 
2.43.0

