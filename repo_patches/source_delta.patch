From ae7912a81a491d604885227e01146e782d4a2ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:38 +0000
Subject: [PATCH 01/52] fix: don't mistake uncompressed code data for
 compressed data

The check that footer padding is all 0xFF had no effect, lengths were not
checked against the data in front of the footer, and data of 5 to 7 bytes
crashed.
---
 ndspy/codeCompression.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 59a7c5b..5379646 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -36,9 +36,7 @@ def _detectAppendedData(data: bytes) -> int | None:
     if so, or None if the data doesn't seem to be compressed.
     """
     for possibleAmt in range(0, 0x20, 4):
-        try:
-            headerLen = data[-5 - possibleAmt]
-        except IndexError:
+        if len(data) < possibleAmt + 8:
             return None
 
         compLenHeaderLen, extraSize = struct.unpack_from('<II', data, len(data) - possibleAmt - 8)
@@ -46,10 +44,11 @@ def _detectAppendedData(data: bytes) -> int | None:
         compressedLen = compLenHeaderLen & 0xFFFFFF
 
         if headerLen < 8: continue
-        if compressedLen > len(data): continue
-        for byte in data[-possibleAmt - headerLen  : -possibleAmt - 8]:
-            if byte != 0xFF:
-                continue
+        if headerLen > compressedLen: continue
+        footerEnd = len(data) - possibleAmt
+        if compressedLen > footerEnd: continue
+        if any(byte != 0xFF for byte in data[footerEnd - headerLen : footerEnd - 8]):
+            continue
 
         return possibleAmt
 
-- 
2.43.0


From 53b6dd44d13e39460d21d1aca7a7ab566e3354a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:23 +0000
Subject: [PATCH 02/52] fix: fall back to uncompressed code when compression
 doesn't help

Barely compressible data made compress() crash with struct.error, or
produce a file that decompress() considered to be uncompressed.
---
 ndspy/codeCompression.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 5379646..9211ed0 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -255,7 +255,12 @@ def _compress(data: bytes) -> bytearray:
         _lzCommon.compress(bytes(reversed(data)), 3, 0x1002, 18, False, True)
     compressed = bytearray(reversed(compressed))
 
-    if not compressed or (len(data) + 4 < ((len(compressed) + 3) & ~4) + 8):
+    # Length of the output file (rounded up to a multiple of 4, plus 8
+    # for the header), with ignorable data left uncompressed
+    newLen = len(compressed) - ignorableC + ignorableD
+    newLen = ((newLen + 3) & ~3) + 8
+
+    if not compressed or newLen >= len(data):
         # Compressed size too large -- copy the raw data over instead
 
         compressed = bytearray(data)
-- 
2.43.0


From 732b969bd5d179841ed9aed45b9275530c306211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:29 +0000
Subject: [PATCH 03/52] fix: keep data appended to uncompressed code when
 decompressing

---
 ndspy/codeCompression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 9211ed0..ff6be6e 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -81,7 +81,7 @@ def decompress(data: bytes) -> bytes:
     # If extraSize (the last value in the header) is 0, the data is not
     # actually compressed
     if data[-4:] == b'\0\0\0\0':
-        return data
+        return data + appendedData
 
     # Read the header
     compLenHeaderLen, extraSize = struct.unpack_from('<II', data, len(data) - 8)
-- 
2.43.0


From 843dbe4c5780a04014c280eb2e9d8c07d06534a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:44 +0000
Subject: [PATCH 04/52] fix: report empty paths as missing instead of raising
 IndexError

Folder.idOf() and Folder.subfolder() raised IndexError for '' and '/'.
They now return None, like for any other path that does not exist.
---
 ndspy/fnt.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ndspy/fnt.py b/ndspy/fnt.py
index c6fb53e..632daa1 100644
--- a/ndspy/fnt.py
+++ b/ndspy/fnt.py
@@ -119,9 +119,7 @@ class Folder:
             # Welp.
             return None
 
-        pathList = path.split('/')
-        while not pathList[-1]: pathList = pathList[:-1]
-        while not pathList[0]: pathList = pathList[1:]
+        pathList = path.strip('/').split('/')
         return findInFolder(pathList, self)
 
 
@@ -149,9 +147,7 @@ class Folder:
             # Welp.
             return None
 
-        pathList = path.split('/')
-        while not pathList[-1]: pathList = pathList[:-1]
-        while not pathList[0]: pathList = pathList[1:]
+        pathList = path.strip('/').split('/')
         return findInFolder(pathList, self)
 
 
-- 
2.43.0


From 42a638f8904a83b3c7d77cffdb7f4c6844871520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:59 +0000
Subject: [PATCH 05/52] fix: don't fail when updating the device capacity of a
 small ROM

ROMs of up to 64 KiB got a negative device capacity, so
save(updateDeviceCapacity=True) raised ValueError. The smallest
cartridge has capacity value 0.
---
 ndspy/rom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/rom.py b/ndspy/rom.py
index 78af762..068664b 100644
--- a/ndspy/rom.py
+++ b/ndspy/rom.py
@@ -458,7 +458,7 @@ class NintendoDSRom:
         # Now that we know how large the ROM data is, we can update the
         # device capacity value
         if updateDeviceCapacity:
-            self.deviceCapacity = math.ceil(math.log2(len(data))) - 17
+            self.deviceCapacity = max(0, math.ceil(math.log2(len(data))) - 17)
 
         # Now that all the offsets and stuff are determined, write the
         # header data
-- 
2.43.0


From c6b7fa95d33ab7668b4d81f6b8cc0e039e889431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:59 +0000
Subject: [PATCH 06/52] fix: keep empty files in place when loading a ROM

An empty file starts at the same offset as the file stored after it, and
only one of the two was kept in sortedFileIds. The other one moved to the
end of the ROM, so resaving an unmodified ROM changed it.
---
 ndspy/rom.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ndspy/rom.py b/ndspy/rom.py
index 068664b..ba1fbb3 100644
--- a/ndspy/rom.py
+++ b/ndspy/rom.py
@@ -308,13 +308,15 @@ class NintendoDSRom:
         self.files = []
         self.sortedFileIds = []
         if fat:
-            offset2Id = {}
+            locations = []
             for i in range(len(fat) // 8):
                 startOffset, endOffset = struct.unpack_from('<II', fat, 8 * i)
                 self.files.append(data[startOffset:endOffset])
-                offset2Id[startOffset] = i
-            for off in sorted(offset2Id):
-                self.sortedFileIds.append(offset2Id[off])
+                locations.append((startOffset, endOffset, i))
+            # Empty files have the same start offset as the file that
+            # follows them
+            for startOffset, endOffset, i in sorted(locations):
+                self.sortedFileIds.append(i)
 
 
     @classmethod
-- 
2.43.0


From 817b5bcf88ba813963fe021c90e4409b59f9384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:59 +0000
Subject: [PATCH 07/52] fix: don't load padding at the end of a ROM as its
 signature

A ROM saved without an RSA signature was loaded back with up to 0x88
bytes of zero padding as its signature.
---
 ndspy/rom.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndspy/rom.py b/ndspy/rom.py
index ba1fbb3..97733fd 100644
--- a/ndspy/rom.py
+++ b/ndspy/rom.py
@@ -264,6 +264,9 @@ class NintendoDSRom:
         self.rsaSignature = b''
         if realSigOffset:
             self.rsaSignature = data[realSigOffset : min(len(data), realSigOffset + 0x88)]
+            if not any(self.rsaSignature) and len(data) - realSigOffset < 0x400:
+                # It's just padding at the end of the ROM
+                self.rsaSignature = b''
 
         # Read arm9, arm7, FNT, FAT, overlay tables, icon banner
         self.arm9 = data[arm9Offset : arm9Offset+arm9Len]
-- 
2.43.0


From 5e556a7eec4d969c6386e2bba02c47f8ab093246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:23 +0000
Subject: [PATCH 08/52] fix: allow saving code files that have no code settings

MainCodeFile.save() raised TypeError when codeSettingsOffs was None, which
is always the case for homebrew code and for fromSections().
---
 ndspy/code.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 0681405..2f50f55 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -246,9 +246,8 @@ class MainCodeFile:
 
         if compress:
             data = bytearray(codeCompression.compress(data, True))
-            setInt(cso + 0x14, self.ramAddress + len(data))
-        else:
-            setInt(cso + 0x14, 0)
+        if cso is not None:
+            setInt(cso + 0x14, self.ramAddress + len(data) if compress else 0)
 
         return data
 
-- 
2.43.0


From e9a6bc8d6e5a97259b5fe75449d2810cf3da4cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:58 +0000
Subject: [PATCH 09/52] fix: don't mistake other data for the code settings
 structure

When guessing the location of the code settings, matches too close to
the beginning or end of the file raised struct.error, and a value larger
than the end of the section table was accepted as its beginning.
---
 ndspy/code.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 2f50f55..5ff90aa 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -269,7 +269,7 @@ class MainCodeFile:
         """
 
         # Simple heuristic that works in most arm9.bin's:
-        for i in range(0, 0x8000, 4):
+        for i in range(0x1C, 0x8000, 4):
             if data[i:i+8] == b'\x21\x06\xC0\xDE\xDE\xC0\x06\x21':
                 return i - 0x1C
 
@@ -282,14 +282,15 @@ class MainCodeFile:
         expectedTableEndBytes = struct.pack('<I', expectedTableEnd)
         if expectedTableEndBytes in data:
             try:
-                match = data.index(expectedTableEndBytes, 0)
+                match = data.index(expectedTableEndBytes, 4)
             except ValueError:
                 match = None
             while match is not None:
                 possibleTableStart, = struct.unpack_from('<I', data, match - 4)
                 if (possibleTableStart % 4 == 0
                         and (expectedTableEnd - possibleTableStart) % 12 == 0
-                        and expectedTableEnd - possibleTableStart < 0x100):
+                        and 0 <= expectedTableEnd - possibleTableStart < 0x100
+                        and match + 0x14 <= len(data)):
                     # Probably a match
                     return match - 4
                 try:
-- 
2.43.0


From f35bef7087b245fb61cc56f70ed82a6e257664dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:58 +0000
Subject: [PATCH 10/52] fix: accept None as the data of a main code file

The documentation says this creates an empty code file, but it raised
TypeError.
---
 ndspy/code.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 5ff90aa..939befb 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -98,11 +98,11 @@ class MainCodeFile:
     codeSettingsOffs: int | None
 
 
-    def __init__(self, data: bytes, ramAddress: int, codeSettingsPointerAddress: int | None = None):
+    def __init__(self, data: bytes | None, ramAddress: int, codeSettingsPointerAddress: int | None = None):
         self.sections = []
         self.ramAddress = ramAddress
 
-        data = codeCompression.decompress(data)
+        data = codeCompression.decompress(data) if data is not None else b''
 
         self.codeSettingsOffs = None
         if codeSettingsPointerAddress:
-- 
2.43.0


From b338f50de3813a84459ca79a0d1e8ddc1d2f0cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:00 +0000
Subject: [PATCH 11/52] fix: save code sections whose size isn't a multiple of
 4 correctly

Section data is padded to a multiple of 4 bytes, but the section table
and the address of the first section used the unpadded sizes. All later
sections were at wrong offsets when loading the file again.
---
 ndspy/code.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 939befb..209c6f6 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -212,13 +212,16 @@ class MainCodeFile:
         # The first one only operates on sections with length != 0,
         # and the second operates on sections with length == 0!
 
+        def alignedLen(s: MainCodeFile.Section) -> int:
+            return (len(s.data) + 3) // 4 * 4
+
         sectionTable = bytearray()
 
         for s in self.sections:
             if s.implicit: continue
             if len(s.data) == 0: continue
             sectionTable.extend(
-                struct.pack('<3I', s.ramAddress, len(s.data), s.bssSize))
+                struct.pack('<3I', s.ramAddress, alignedLen(s), s.bssSize))
 
         for s in self.sections:
             if s.implicit: continue
@@ -239,7 +242,7 @@ class MainCodeFile:
         if cso is not None:
             setInt(cso + 0x00, sectionTableAddr)
             setInt(cso + 0x04, sectionTableEnd)
-            setInt(cso + 0x08, self.ramAddress + len(self.sections[0].data))
+            setInt(cso + 0x08, self.ramAddress + alignedLen(self.sections[0]))
         else:
             # Welp, hopefully we only have one section :P
             pass
-- 
2.43.0


From dd45669ca05c1557c7e5ef97c0dff500fea48628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:31 +0000
Subject: [PATCH 12/52] fix: detect the endianness of BMG files of 64 KiB and
 more

A file length such as 0x00010000 is smaller when read with the wrong byte
order, so loading BMG files of certain lengths failed. The number of
sections is always small, so it is a reliable indicator.
---
 ndspy/bmg.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 1967e52..ca3469c 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -89,11 +89,14 @@ class BMG:
         # Super Princess Peach uses *big-endian* BMGs. What even.
 
         # Well, OK, whatever. We can make an extremely accurate guess by
-        # reading the file length value both ways and seeing which one
-        # seems to make more sense:
-        dataLenLE, = struct.unpack_from('<I', data, 8)
-        dataLenBE, = struct.unpack_from('>I', data, 8)
-        self.endianness = se = '<' if dataLenLE < dataLenBE else '>'
+        # reading the section count value both ways and seeing which one
+        # seems to make more sense. (The file length value is less
+        # reliable -- 0x00010000, for example -- so it's only used if
+        # there are no sections.)
+        dataLenLE, sectionCountLE = struct.unpack_from('<II', data, 8)
+        dataLenBE, sectionCountBE = struct.unpack_from('>II', data, 8)
+        self.endianness = se = \
+            '<' if (sectionCountLE, dataLenLE) < (sectionCountBE, dataLenBE) else '>'
         # Still, though... ugh.
 
         magic, dataLen, sectionCount, enc, self.unk14, self.unk18, self.unk1C = \
-- 
2.43.0


From 057ff95b54915b069cd97b45e5e43a4588fd549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:27 +0000
Subject: [PATCH 13/52] fix: only drop padding at the end of the BMG
 instructions and labels

Instructions consisting of zeros and (0, 0) labels were dropped wherever
they occurred when loading a BMG. Scripts and labels refer to instructions
by index, so all following ones were off by one.
---
 ndspy/bmg.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index ca3469c..12ac95b 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -131,17 +131,21 @@ class BMG:
             instructionsTableOffset = offset + 16
             for i in range(instructionsCount):
                 instOff = instructionsTableOffset + i * 8
-                cmd = data[instOff : instOff + 8]
-                if cmd != b'\0\0\0\0\0\0\0\0':
-                    self.instructions.append(cmd)
+                self.instructions.append(data[instOff : instOff + 8])
+            # The number of instructions is padded to a multiple of 2
+            if self.instructions and not any(self.instructions[-1]):
+                del self.instructions[-1]
 
             indicesTableOffset = instructionsTableOffset + instructionsCount * 8
             bmgIDsTableOffset = indicesTableOffset + labelsCount * 2
             for i in range(labelsCount):
                 index, = struct.unpack_from(se + 'h', data, indicesTableOffset + i * 2)
                 bmgID, = struct.unpack_from(se + 'b', data, bmgIDsTableOffset + i)
-                if bmgID != 0 or index != 0:
-                    self.labels.append((bmgID, index))
+                self.labels.append((bmgID, index))
+            # The number of labels is padded to a multiple of 8
+            for i in range(7):
+                if self.labels and self.labels[-1] == (0, 0):
+                    del self.labels[-1]
 
         self.scripts = []
         def parseFLI1(offset: int, length: int) -> None:
-- 
2.43.0


From 511b633e9efc9038efc71bbeb4c5ac915a02555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:40 +0000
Subject: [PATCH 14/52] fix: save script indices of big-endian BMGs where they
 are loaded from

Script start indices were saved as 32-bit values but loaded as 16-bit
values followed by padding, so big-endian BMGs lost them.
---
 ndspy/bmg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 12ac95b..b89b331 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -306,7 +306,7 @@ class BMG:
             FLW1.extend(struct.pack(se + 'b', bmgID))
 
         for id, startIndex in self.scripts:
-            FLI1.extend(struct.pack(se + 'II', id, startIndex))
+            FLI1.extend(struct.pack(se + 'IHxx', id, startIndex))
 
         # Sections' lengths must be 32-byte aligned
         while len(INF1) % 32: INF1.append(0)
-- 
2.43.0


From 35fe1ac0c98a9a24d83b9a0c0d4dcf1d154669dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:56 +0000
Subject: [PATCH 15/52] fix: save sound archives whose sequence archive list
 has missing entries

---
 ndspy/soundArchive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndspy/soundArchive.py b/ndspy/soundArchive.py
index 54bb0b2..5e4a1e6 100644
--- a/ndspy/soundArchive.py
+++ b/ndspy/soundArchive.py
@@ -400,6 +400,7 @@ class SDAT:
                     if symbol is not None:
                         anyActualSymbols = True
                         break
+                    if entry is None: continue
                     for subSymbol, subEntry in entry.sequences:
                         if subSymbol is not None:
                             anyActualSubsymbols = True
-- 
2.43.0


From 1692fb9f1e7463d635aaa2a950c885d4b8c94f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:31 +0000
Subject: [PATCH 16/52] fix: detect sound archive layout settings that
 reproduce the loaded layout

---
 ndspy/soundArchive.py | 54 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/ndspy/soundArchive.py b/ndspy/soundArchive.py
index 5e4a1e6..c19d1d3 100644
--- a/ndspy/soundArchive.py
+++ b/ndspy/soundArchive.py
@@ -197,8 +197,12 @@ class SDAT:
         if finalFileEnd == len(data) and finalFileEnd % self.fileAlignment != 0:
             self.padAtEnd = False
 
-        # Do another quick pass to find if the FAT file lengths include
-        # padding
+        # Those guesses can be wrong if there are only a few files (or if
+        # all of their sizes happen to be round numbers). So if saving
+        # with these settings wouldn't put things where they are now,
+        # look for other settings that do.
+        self._checkLayoutSettings(data, fatBlockOffset + 0x0C, fatCount,
+                                  fileBlockOffset + 0x0C)
 
         # Read the info block
         (infoMagic, infoSize) = \
@@ -350,6 +354,52 @@ class SDAT:
             self.padSymbSizeTo4InSDATHeader = True
 
 
+    def _checkLayoutSettings(self, data, fatArrayPos, fatCount, filesStart):
+        """
+        Helper function for _initFromData() that ensures that the
+        settings regarding the layout of the FAT and FILE blocks agree
+        with the actual layout, if possible.
+        """
+        def align(value, alignment):
+            return (value + alignment - 1) // alignment * alignment
+
+        entries = []
+        for i in range(fatCount):
+            offset, length = struct.unpack_from('<II', data, fatArrayPos + 0x10 * i)
+            if offset + 0xC > len(data): return
+            # The length without padding can be found in the file header
+            realLength, = struct.unpack_from('<I', data, offset + 8)
+            entries.append((offset, length, realLength))
+
+        def layoutMatches(alignment, firstAlignment, includePadding, padAtEnd):
+            pos = align(filesStart, firstAlignment or 1)
+            for offset, length, realLength in entries:
+                pos = align(pos, alignment)
+                paddedLength = align(realLength, alignment)
+                if (offset, length) != (pos, paddedLength if includePadding else realLength):
+                    return False
+                pos += realLength
+            if padAtEnd: pos = align(pos, alignment)
+            return pos == len(data)
+
+        candidates = [(self.fileAlignment, self.firstFileAlignment,
+                       self.fatLengthsIncludePadding, self.padAtEnd)]
+        for alignment in [0x20, 0x200, 0x100, 0x80, 0x40, 0x10, 8, 4, 2, 1]:
+            firstAlignment = None
+            if entries:
+                firstAlignment = min(0x200, entries[0][0] & -entries[0][0])
+                if firstAlignment <= alignment: firstAlignment = None
+            for padAtEnd in [True, False]:
+                for includePadding in [False, True]:
+                    candidates.append((alignment, firstAlignment, includePadding, padAtEnd))
+
+        for candidate in candidates:
+            if layoutMatches(*candidate):
+                (self.fileAlignment, self.firstFileAlignment,
+                    self.fatLengthsIncludePadding, self.padAtEnd) = candidate
+                return
+
+
     @classmethod
     def fromFile(cls, filePath):
         """
-- 
2.43.0


From 6d7a2101b7b89529041be2dff53e695f78b05d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:11 +0000
Subject: [PATCH 17/52] fix: random sequence events use the length of the data
 they contain

---
 ndspy/soundSequence.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 9601a8e..825105c 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -518,14 +518,17 @@ class RandomSequenceEvent(SequenceEvent):
 
     @staticmethod
     def _dataLength_for_subtype(subType):
-        if subType <= 0x7F:
+        # The last argument is replaced by randMin and randMax, no matter
+        # how long it'd usually be. Notes and arithmetic events have a
+        # one-byte argument before that one.
+        if subType <= 0x7F or 0xB0 <= subType <= 0xBD:
             return 7
 
         # This is really really hacky, but... works
         for i in range(5):
             try:
                 subEvent = _EVENT_TYPES[subType](0, *([0] * i))
-                return 4 + subEvent.dataLength
+                return 6
             except TypeError as e:
                 pass
         raise ValueError("Couldn't determine dataLength for"
-- 
2.43.0


From 03bf26826e36cfc18d1298f5e31ccde73ab72f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:11 +0000
Subject: [PATCH 18/52] fix: from-variable sequence events read and write only
 their own data

---
 ndspy/soundSequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 825105c..04ebf92 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -589,14 +589,14 @@ class FromVariableSequenceEvent(SequenceEvent):
 
     def save(self, eventsToOffsets=None):
         if self.dataLength == 3:
-            return super().save() + struct.pack('<Bh',
+            return super().save() + struct.pack('<Bb',
                                                 self.subType,
                                                 self.variableID)
         else:
             if self.unknown is None:
                 raise ValueError('FromVariableSequenceEvent: trying to'
                     ' save with unknown, but unknown is None!')
-            return super().save() + struct.pack('<Bbbxx',
+            return super().save() + struct.pack('<Bbb',
                                                 self.subType,
                                                 self.unknown,
                                                 self.variableID)
@@ -610,7 +610,7 @@ class FromVariableSequenceEvent(SequenceEvent):
                                                      startOffset + 2)
         else:
             unknown = None
-            variableID, = struct.unpack_from('<h', data, startOffset + 2)
+            variableID, = struct.unpack_from('<b', data, startOffset + 2)
         return cls(subType, variableID, unknown)
 
     def __str__(self):
-- 
2.43.0


From bcbdabc06ad79ff177ff38166f232a2c66c5404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:52 +0000
Subject: [PATCH 19/52] fix: sequence parser finds everything that can be
 reached and rejects data it cannot represent

---
 ndspy/soundSequence.py | 242 ++++++++++++++++++++++-------------------
 1 file changed, 133 insertions(+), 109 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 04ebf92..7c9255a 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1266,125 +1266,146 @@ def readSequenceEvents(data, notableOffsets=None):
 
     events = {}
 
-    FATE_INPROGRESS = 0
-    FATE_RETURN = 1
-    FATE_LOOP = 2
-    FATE_EOT = 3
-    fates = {}
-
-    def parse_at(off):
-        offsetsOfMySequentialEvents = []
-
-        while off < len(data):
-            if off in fates:
-                fate = fates[off]
-                if fate == FATE_INPROGRESS:
-                    fate = FATE_LOOP
-                for off_ in offsetsOfMySequentialEvents:
-                    fates[off_] = fate
-                return fate
+    # Jump targets, etc. of events, to be resolved once everything has
+    # been parsed
+    targets = {}
 
-            try:
+    def eventAt(off):
+        """
+        Return the event at offset `off`, parsing it first if that
+        hasn't been done yet.
+        """
+        if off in events:
+            return events[off]
 
-                type = data[off]
-
-                if type == 0x93: # BeginTrack
-                    trackNumber = data[off + 1]
-                    firstEventOff = int.from_bytes(data[off + 2 : off + 5], 'little') # 3-byte int
-
-                    event = BeginTrackSequenceEvent(trackNumber, None)
-                    events[off] = event
-                    fates[off] = FATE_INPROGRESS
-                    parse_at(firstEventOff)
-                    event.firstEvent = events[firstEventOff]
-
-                elif type == 0x94: # Jump
-                    destination = int.from_bytes(data[off + 1 : off + 4], 'little') # 3-byte int
-
-                    event = JumpSequenceEvent(None)
-                    events[off] = event
-                    fates[off] = FATE_INPROGRESS
-                    fate = parse_at(destination)
-                    event.destination = events[destination]
-
-                    for off_ in offsetsOfMySequentialEvents:
-                        fates[off_] = fate
-
-                    # Should we keep parsing past here? Only if this
-                    # is part of an if statement (and thus might be
-                    # skipped).
-                    x = off - 1
-                    while x not in events and x >= 0:
-                        x -= 1
-                    if x == -1:
-                        partOfIfStatement = False
-                    else:
-                        partOfIfStatement = (events[x].type == 0xA2)
-
-                    if not partOfIfStatement:
-                        return fate
-
-                elif type == 0x95: # Call
-                    destination = int.from_bytes(data[off + 1 : off + 4], 'little') # 3-byte int
-
-                    event = CallSequenceEvent(None)
-                    events[off] = event
-                    fates[off] = FATE_INPROGRESS
-                    fate = parse_at(destination)
-                    event.destination = events[destination]
-
-                    if fate == FATE_EOT:
-                        fates[off] = fate
-                        for off_ in offsetsOfMySequentialEvents:
-                            fates[off_] = fate
-                        return fate
-                    elif fate == FATE_RETURN:
-                        pass
-                    elif fate == FATE_LOOP:
-                        fates[off] = fate
-                        for off_ in offsetsOfMySequentialEvents:
-                            fates[off_] = fate
-                        return fate
-
-                elif type == 0xFD: # Return
-                    events[off] = ReturnSequenceEvent()
-                    fates[off] = FATE_RETURN
-                    for off_ in offsetsOfMySequentialEvents:
-                        fates[off_] = FATE_RETURN
-                    return FATE_RETURN
-
-                elif type == 0xFF: # EoT
-                    events[off] = EndTrackSequenceEvent()
-                    fates[off] = FATE_EOT
-                    for off_ in offsetsOfMySequentialEvents:
-                        fates[off_] = FATE_EOT
-                    return FATE_EOT
+        if off >= len(data):
+            raise EOFError('Reached EoF of sequence.')
 
-                else:
+        try:
+            type = data[off]
+
+            if type == 0x93: # BeginTrack
+                event = BeginTrackSequenceEvent(data[off + 1], None)
+                targets[off] = int.from_bytes(data[off + 2 : off + 5], 'little') # 3-byte int
 
-                    if type <= 0x7F:
-                        eventCls = NoteSequenceEvent
-                    elif type not in _EVENT_TYPES:
-                        raise ValueError(f'Event {hex(type)} unrecognized.')
-                    else:
-                        eventCls = _EVENT_TYPES[type]
+            elif type == 0x94: # Jump
+                event = JumpSequenceEvent(None)
+                targets[off] = int.from_bytes(data[off + 1 : off + 4], 'little') # 3-byte int
 
-                    event = eventCls.fromData(type, data, off)
-                    events[off] = event
-                    fates[off] = FATE_INPROGRESS
+            elif type == 0x95: # Call
+                event = CallSequenceEvent(None)
+                targets[off] = int.from_bytes(data[off + 1 : off + 4], 'little') # 3-byte int
+
+            elif type <= 0x7F:
+                event = NoteSequenceEvent.fromData(type, data, off)
+
+            elif type not in _EVENT_TYPES:
+                raise ValueError(f'Event {hex(type)} unrecognized.')
+
+            else:
+                event = _EVENT_TYPES[type].fromData(type, data, off)
 
-                offsetsOfMySequentialEvents.append(off)
-                off += event.dataLength
+        except (struct.error, IndexError):
+            raise EOFError('Reached EoF of sequence.')
+
+        if off + event.dataLength > len(data):
+            raise EOFError('Reached EoF of sequence.')
+
+        if (off not in targets
+                and event.save() != data[off : off + event.dataLength]):
+            # E.g. a variable-length int that's longer than it needs to be
+            raise ValueError(f'Event at {hex(off)} cannot be represented.')
+
+        events[off] = event
+        return event
+
+    # Follow all paths execution can take. The only difficulty is that
+    # execution continues after a Call only if the subroutine it calls
+    # can return, so we need to keep track of that.
+
+    toVisit = []
+    visited = set()
+    predecessors = {} # {offset: [offsets execution can come from]}
+    callers = {} # {offset: [offsets of Calls to here]}
+    canReturn = set() # offsets from which a Return can be reached
+    canEnd = set() # offsets from which an EndTrack can be reached
+
+    def addPath(off, nextOff):
+        """
+        Execution can continue from off to nextOff.
+        """
+        toVisit.append(nextOff)
+        predecessors.setdefault(nextOff, []).append(off)
+        if nextOff in canReturn: mark(canReturn, off)
+        if nextOff in canEnd: mark(canEnd, off)
 
-            except (struct.error, IndexError):
-                raise EOFError('Reached EoF of sequence.')
-        raise EOFError('Reached EoF of sequence.')
+    def mark(which, off):
+        """
+        Add an offset, and everything that leads to it, to `which`
+        (canReturn or canEnd).
+        """
+        toMark = [off]
+        while toMark:
+            off = toMark.pop()
+            if off in which: continue
+            which.add(off)
+            toMark.extend(predecessors.get(off, []))
+            for callOff in callers.get(off, []):
+                if which is canReturn:
+                    addPath(callOff, callOff + events[callOff].dataLength)
+                else:
+                    toMark.append(callOff)
 
     starts = notableOffsets
-    if not starts: starts = [0]
+    if not starts and data: starts = [0]
+    toVisit.extend(starts)
+
+    while toVisit:
+        off = toVisit.pop()
+        if off in visited: continue
+        visited.add(off)
+
+        event = eventAt(off)
+        nextOff = off + event.dataLength
+
+        if event.type == 0x93: # BeginTrack
+            toVisit.append(targets[off])
+            addPath(off, nextOff)
+
+        elif event.type == 0x94: # Jump
+            addPath(off, targets[off])
+
+        elif event.type == 0x95: # Call
+            destination = targets[off]
+            toVisit.append(destination)
+            callers.setdefault(destination, []).append(off)
+            if destination in canReturn: addPath(off, nextOff)
+            if destination in canEnd: mark(canEnd, off)
+
+        elif event.type == 0xFD: # Return
+            mark(canReturn, off)
+
+        elif event.type == 0xFF: # EoT
+            mark(canEnd, off)
+
+        else:
+            addPath(off, nextOff)
+
+            if event.type == 0xA2: # If
+                # The next event might be skipped
+                skipOff = nextOff + eventAt(nextOff).dataLength
+                if skipOff < len(data):
+                    addPath(off, skipOff)
+
     for start in starts:
-        ultimateFate = parse_at(start)
-        assert ultimateFate in (FATE_EOT, FATE_LOOP), f'Starting point {hex(start)} results in fate {ultimateFate}'
+        assert start not in canReturn or start in canEnd, \
+            f'Starting point {hex(start)} returns without having been called'
+
+    for off, target in targets.items():
+        if events[off].type == 0x93:
+            events[off].firstEvent = events[target]
+        else:
+            events[off].destination = events[target]
 
     eventsList = []
     i = 0
@@ -1399,6 +1420,9 @@ def readSequenceEvents(data, notableOffsets=None):
             eventsList.append(RawDataSequenceEvent(data[i:j]))
             i = j
 
+    if sum(event.type is not None for event in eventsList) != len(events):
+        raise ValueError('Some events overlap each other.')
+
     notableEvents = [events[off] for off in notableOffsets]
 
     return eventsList, notableEvents
-- 
2.43.0


From 76d27dc8083ad8545d22b33ce0c7dc21dd2ea8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:03 +0000
Subject: [PATCH 20/52] fix: sequence archives with missing entries can be
 saved after being parsed

---
 ndspy/soundSequenceArchive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndspy/soundSequenceArchive.py b/ndspy/soundSequenceArchive.py
index e185713..ee9ab4c 100644
--- a/ndspy/soundSequenceArchive.py
+++ b/ndspy/soundSequenceArchive.py
@@ -161,10 +161,11 @@ class SSAR:
         self.events, startEvents = soundSequence.readSequenceEvents(
             eventsData, startOffs)
 
+        for seqName, seq in self.sequences:
+            seq.parsed = True
+
         for event, originalOff in zip(startEvents, startOffs):
             for seq in startOffs2Seq[originalOff]:
-                # These have to happen in this order
-                seq.parsed = True
                 seq.firstEvent = event
 
 
-- 
2.43.0


From 669068d1baf137601b1b6dbedd8bd0daa6e2093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:26 +0000
Subject: [PATCH 21/52] fix: save every occurrence of a repeated sequence event

---
 ndspy/soundSequence.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 7c9255a..1882db6 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1444,11 +1444,10 @@ def saveSequenceEvents(events, notableEvents=None):
     for e in events:
         events2Offsets[e] = off
         off += e.dataLength
-    data = bytearray(off)
 
-    for event, offset in events2Offsets.items():
-        eData = event.save(events2Offsets)
-        data[offset : offset + len(eData)] = eData
+    data = bytearray()
+    for event in events:
+        data.extend(event.save(events2Offsets))
 
     notableOffsets = [events2Offsets[e] for e in notableEvents]
 
-- 
2.43.0


From aebc609378e44c2fb7da4c4417041197d1e8f84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:23 +0000
Subject: [PATCH 22/52] fix: streams without any blocks can be saved

---
 ndspy/soundStream.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ndspy/soundStream.py b/ndspy/soundStream.py
index 88b5a42..1734e31 100644
--- a/ndspy/soundStream.py
+++ b/ndspy/soundStream.py
@@ -217,13 +217,18 @@ class STRM:
         if self.waveType == WaveType.ADPCM and numBlocks == 1:
             adpcmBlockSizeAdjust = 4
 
+        numSamples = 0
+        if numBlocks > 0:
+            numSamples = ((numBlocks - 1) * self.samplesPerBlock
+                          + self.samplesInLastBlock)
+
         data.extend(struct.pack(
             '<4sI', b'HEAD', 0x50))
         data.extend(struct.pack('<B?BB2H16I',
             self.waveType, self.isLooped, len(self.channels), self.unk03,
             self.sampleRate, self.time,
             self.loopOffset,
-            (numBlocks - 1) * self.samplesPerBlock + self.samplesInLastBlock,
+            numSamples,
             0x68,
             numBlocks,
             bytesPerBlock - adpcmBlockSizeAdjust,
-- 
2.43.0


From 798bc93b4d7108dc0543f2ad3b6ede5b859e96ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:25 +0000
Subject: [PATCH 23/52] fix: tileAt and putTile reach rows beyond the list's
 width

---
 ndspy/graphics2D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index 8083356..517b3e5 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -474,7 +474,7 @@ def tileAt(tiles, x, y, *, width=32):
     TODO: maybe rename it somehow to indicate that? Maybe even move it
     into ndspy.__init__ (like the named-list things)?
     """
-    if x >= width or y >= width: return None
+    if x >= width: return None
     if x < 0 or y < 0: return None
     try:
         return tiles[y * width + x]
@@ -492,7 +492,7 @@ def putTile(tiles, x, y, t, *, width=32):
     into ndspy.__init__ (like the named-list things)?
     Returns True if the tile was placed, False otherwise (i.e. OOB)
     """
-    if x >= width or y >= width: return False
+    if x >= width: return False
     if x < 0 or y < 0: return False
     try:
         tiles[y * width + x] = t
-- 
2.43.0


From b938f5052f9b49ff612f8a3973047d004d28a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:37 +0000
Subject: [PATCH 24/52] fix: rendering tile lists with an incomplete last row

---
 ndspy/graphics2D.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index 517b3e5..cf320db 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -410,7 +410,9 @@ def renderImageTiles(tiles, colors, paletteNum=0, width=32):
     tileIter = iter(tiles)
     for y in range(height):
         for x in range(width):
-            tilePixels = next(tileIter).render(colors, paletteNum)
+            tile = next(tileIter, None)
+            if tile is None: break
+            tilePixels = tile.render(colors, paletteNum)
             for y2 in range(8):
                 base = ((y * 8 + y2) * width + x) * 8
                 img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
@@ -445,7 +447,9 @@ def renderTilemapTiles(tilemapTiles, imageTiles, colors, width, tileNumOffset=0)
     tilemapIter = iter(tilemapTiles)
     for y in range(height):
         for x in range(width):
-            tilePixels = next(tilemapIter).render(imageTiles, colors, tileNumOffset)
+            tile = next(tilemapIter, None)
+            if tile is None: break
+            tilePixels = tile.render(imageTiles, colors, tileNumOffset)
             for y2 in range(8):
                 base = ((y * 8 + y2) * width + x) * 8
                 img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
-- 
2.43.0


From b8041fd996185c4dfbff212fc2e90089b95fa367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:27 +0000
Subject: [PATCH 25/52] fix: texture palettes that share data or look alike
 load correctly

---
 ndspy/texture.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/ndspy/texture.py b/ndspy/texture.py
index 075edd5..5206a2b 100644
--- a/ndspy/texture.py
+++ b/ndspy/texture.py
@@ -421,8 +421,7 @@ def _readTEX0(data):
     # "data length" value: first we collect all the palette data start
     # positions (and metadata), then we sort the data start positions,
     # and then we make the actual Palette objects with the palette data.
-    paletteStartOffsets = []
-    palette2StartOffset = {}
+    paletteStartOffsets = set()
 
     paletteTuples = []
     returnVal['palettes'] = []
@@ -434,16 +433,14 @@ def _readTEX0(data):
 
         pt = (name, unk00, unk02, unkHeader02)
 
-        paletteStartOffsets.append(thisPalOff)
-        palette2StartOffset[pt] = thisPalOff
-        paletteTuples.append(pt)
+        paletteStartOffsets.add(thisPalOff)
+        paletteTuples.append((pt, thisPalOff))
 
-    paletteStartOffsets.append(palDataOff + palDataLen)
-    paletteStartOffsets.sort()
+    paletteEndOffset = palDataOff + palDataLen
 
-    for pt in paletteTuples:
-        startOff = palette2StartOffset[pt]
-        endOff = paletteStartOffsets[paletteStartOffsets.index(startOff) + 1]
+    for pt, startOff in paletteTuples:
+        endOff = min((off for off in paletteStartOffsets if off > startOff),
+                     default=paletteEndOffset)
         palData = data[startOff : endOff]
 
         name, unk00, unk02, unkHeader02 = pt
-- 
2.43.0


From d16d3c9e873e3e4b58410fe401d9e5aa44a0a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:36 +0000
Subject: [PATCH 26/52] fix: empty texture palettes don't take over the next
 palette's place

---
 ndspy/texture.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ndspy/texture.py b/ndspy/texture.py
index 5206a2b..629eb9f 100644
--- a/ndspy/texture.py
+++ b/ndspy/texture.py
@@ -490,13 +490,17 @@ def _saveTEX0(fields):
     # Palettes header
     palOff = len(data)
     
+    palettes = [(name, pal.save()) for name, pal in fields['palettes']]
+    palettesDataLen = sum(len(p[3]) for _, p in palettes)
+
     entries = []
-    for palName, pal in fields['palettes']:
-        unk00, unk02, unkHeader02, thisPaletteData = pal.save()
+    for palName, (unk00, unk02, unkHeader02, thisPaletteData) in palettes:
         if len(thisPaletteData) % 8:
             # 4 colors = 8 bytes
             raise ValueError('Palette must be a multiple of 4 colors long')
-        thisPalOff = len(palettesData)
+        # Empty palettes go to the end, where they can't be mistaken for
+        # the palette after them
+        thisPalOff = len(palettesData) if thisPaletteData else palettesDataLen
         palettesData.extend(thisPaletteData)
 
         entryData = struct.pack('<HH', thisPalOff >> 3, unkHeader02)
-- 
2.43.0


From 69a835721058d23ab6b07a197dbe4643f52440b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:38 +0000
Subject: [PATCH 27/52] fix: refuse texture and palette names that don't fit
 the name table

---
 ndspy/_common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndspy/_common.py b/ndspy/_common.py
index c3cc59d..2ed57f9 100644
--- a/ndspy/_common.py
+++ b/ndspy/_common.py
@@ -217,7 +217,10 @@ def saveInfoBlock(entries, entryLengths):
         if e[0] is None:
             data.extend(b'\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0')
         else:
-            data.extend(e[0].encode('latin-1').ljust(16, b'\0'))
+            name = e[0].encode('latin-1')
+            if len(name) > 16:
+                raise ValueError(f'Name "{e[0]}" is longer than 16 characters')
+            data.extend(name.ljust(16, b'\0'))
 
     # Insert the overall size, now that we know what it is
     struct.pack_into('<H', data, 2, len(data))
-- 
2.43.0


From e8a0f0f4229c573cf07741573ec9fea4a8e058f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:47 +0000
Subject: [PATCH 28/52] fix: textures can be rendered with their palettes' own
 colors and unprepared tables

---
 ndspy/texture.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ndspy/texture.py b/ndspy/texture.py
index 629eb9f..2ac5cd8 100644
--- a/ndspy/texture.py
+++ b/ndspy/texture.py
@@ -548,6 +548,12 @@ def renderTextureData(data1, data2, format, width, height, palette=None, isColor
     palette should be a list of colors (or None, if the texture format
     doesn't require one).
     """
+    # The functions below look colors up by their 16-bit values
+    ndspyColor.prepareLUTs()
+    if palette is not None:
+        palette = [c if isinstance(c, int) else ndspyColor.pack(*c)
+                   for c in palette]
+
     if format == TextureFormat.A3I5:
         return _renderA3I5(data1, width, height, palette)
     elif format == TextureFormat.I2:
-- 
2.43.0


From bef326f12b47b70596b8c29110e87da7f17e7242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:07 +0000
Subject: [PATCH 29/52] fix: recognize mono mode given as a plain integer

---
 ndspy/extras/music.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 2216cf9..e28772c 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -206,7 +206,7 @@ def durationOf(events,
         if isinstance(event, soundSequence.RestSequenceEvent):
             return event.duration
         elif (isinstance(event, soundSequence.NoteSequenceEvent)
-                and monoPolyMode is _MONO):
+                and monoPolyMode == _MONO):
             return event.duration
         elif isinstance(event, soundSequence.MonoPolySequenceEvent):
             monoPolyMode = event.value
-- 
2.43.0


From 0b71fb66b90cf1f1a073ec8713c412b188db96c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:22 +0000
Subject: [PATCH 30/52] fix: moving in time stops before the events at the time
 reached

---
 ndspy/extras/music.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index e28772c..977629d 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -264,6 +264,9 @@ def moveInTime(events, startIndex, time,
 
     monoPolyMode = initialMonoPolyMode
 
+    # The first event at the current elapsed time, and the mode there
+    firstIdx, firstMode = idx, monoPolyMode
+
     time = 0
     while idx < len(events):
         e = events[idx]
@@ -292,12 +295,14 @@ def moveInTime(events, startIndex, time,
                 return idx + 1, target, monoPolyMode
 
             else:
-                return idx, elapsedTime, monoPolyMode
+                return firstIdx, elapsedTime, firstMode
 
             break
 
         elapsedTime += d
         idx += 1
+        if d > 0:
+            firstIdx, firstMode = idx, monoPolyMode
 
     # We made it all the way through without reaching the desired time.
     # Now we extend the list if the caller requested that...
-- 
2.43.0


From 063ab169b9debcb2e03e72a481973e8b848af32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:27 +0000
Subject: [PATCH 31/52] fix: don't append rests behind the loop of a looped
 track

---
 ndspy/extras/music.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 977629d..94f0f5e 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -305,8 +305,10 @@ def moveInTime(events, startIndex, time,
             firstIdx, firstMode = idx, monoPolyMode
 
     # We made it all the way through without reaching the desired time.
-    # Now we extend the list if the caller requested that...
-    if append:
+    # Now we extend the list if the caller requested that (and it's not
+    # looped)...
+    if append and not any(isinstance(e, soundSequence.JumpSequenceEvent)
+                          for e in events):
         newRest = soundSequence.RestSequenceEvent(target - elapsedTime)
         events.append(newRest)
         elapsedTime = target
-- 
2.43.0


From 297f8d14cfea3379e63d273701356bc819dbb755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:35 +0000
Subject: [PATCH 32/52] fix: allow music without wave archives as documented

---
 ndspy/extras/music.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 94f0f5e..7365e12 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -663,7 +663,7 @@ class SSEQMusic:
         self.sseq = sseq
         self.sbnk = sbnk
         self.swars = swars
-        if not _common.isIterable(self.swars):
+        if self.swars is not None and not _common.isIterable(self.swars):
             raise TypeError('SWAR list is not iterable (did you'
                 ' accidentally pass a SWAR to the constructor instead'
                 ' of a list of SWARs?)')
-- 
2.43.0


From cbd51d01f38e56b79ca54b23995e917eeba517cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:10 +0000
Subject: [PATCH 33/52] fix: songs and tracks without events can be loaded and
 saved

---
 ndspy/extras/music.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 7365e12..76453f9 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -676,7 +676,7 @@ class SSEQMusic:
         # Each track's events are considered to end whenever another
         # track begins.
         self.tracks = {}
-        if isinstance(sseq.events[0],
+        if sseq.events and isinstance(sseq.events[0],
                 soundSequence.DefineTracksSequenceEvent):
 
             # Find events that begin tracks (so that we know where to
@@ -781,7 +781,7 @@ class SSEQMusic:
             # There's only one track and it's track 0. Don't bother
             # defining tracks and stuff.
             self.sseq.events = list(self.tracks[0].events)
-            if not (isinstance(self.sseq.events[-1],
+            if not self.sseq.events or not (isinstance(self.sseq.events[-1],
                                soundSequence.EndTrackSequenceEvent)
                     or isinstance(self.sseq.events[-1],
                                   soundSequence.JumpSequenceEvent)):
@@ -795,22 +795,26 @@ class SSEQMusic:
             beginning.append(dfse)
 
             for trackNum in sorted(self.tracks):
-                track = self.tracks[trackNum]
-                if not track.events:
-                    # Um.
-                    continue
+                # Tracks need at least one event so they don't run into
+                # the next one
+                events = (self.tracks[trackNum].events
+                          or [soundSequence.EndTrackSequenceEvent()])
 
                 if trackNum != 0:
                     beginning.append(
                         soundSequence.BeginTrackSequenceEvent(
-                            trackNum, track.events[0]))
-                contents.extend(track.events)
+                            trackNum, events[0]))
+                contents.extend(events)
                 if not (isinstance(contents[-1],
                                    soundSequence.EndTrackSequenceEvent)
                         or isinstance(contents[-1],
                                       soundSequence.JumpSequenceEvent)):
                     contents.append(soundSequence.EndTrackSequenceEvent())
 
+            if 0 not in self.tracks:
+                # Playback always begins on track 0
+                beginning.append(soundSequence.EndTrackSequenceEvent())
+
             self.sseq.events = beginning + contents
 
         return self.sseq, self.sbnk, self.swars
-- 
2.43.0


From 2f59d9f65699e94bc270c2640f394785ae0aa9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:22 +0000
Subject: [PATCH 34/52] fix: keep track ends that are jumped to or only
 conditionally skipped

---
 ndspy/extras/music.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 76453f9..ee49cb3 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -421,9 +421,30 @@ class SSEQMusic:
         """
         def __init__(self, events):
             self.events = list(events)
+            self._end = soundSequence.EndTrackSequenceEvent()
             if self.events:
                 if isinstance(self.events[-1], soundSequence.EndTrackSequenceEvent):
-                    self.events.pop()
+                    self._end = self.events.pop()
+
+
+        def _saveEvents(self):
+            """
+            Return the track's events, with an end-of-track event added
+            if execution (or a jump) can get to the end of the list.
+            """
+            events = list(self.events)
+
+            stops = (events
+                and isinstance(events[-1], (soundSequence.EndTrackSequenceEvent,
+                                            soundSequence.JumpSequenceEvent))
+                and not (len(events) > 1
+                    and isinstance(events[-2], soundSequence.IfSequenceEvent)))
+
+            if not stops or any(getattr(e, 'destination', None) is self._end
+                                for e in events):
+                events.append(self._end)
+
+            return events
 
 
         @property
@@ -780,12 +801,7 @@ class SSEQMusic:
         if len(self.tracks) == 1 and 0 in self.tracks:
             # There's only one track and it's track 0. Don't bother
             # defining tracks and stuff.
-            self.sseq.events = list(self.tracks[0].events)
-            if not self.sseq.events or not (isinstance(self.sseq.events[-1],
-                               soundSequence.EndTrackSequenceEvent)
-                    or isinstance(self.sseq.events[-1],
-                                  soundSequence.JumpSequenceEvent)):
-                self.sseq.events.append(soundSequence.EndTrackSequenceEvent())
+            self.sseq.events = self.tracks[0]._saveEvents()
 
         else:
             beginning = []
@@ -795,21 +811,13 @@ class SSEQMusic:
             beginning.append(dfse)
 
             for trackNum in sorted(self.tracks):
-                # Tracks need at least one event so they don't run into
-                # the next one
-                events = (self.tracks[trackNum].events
-                          or [soundSequence.EndTrackSequenceEvent()])
+                events = self.tracks[trackNum]._saveEvents()
 
                 if trackNum != 0:
                     beginning.append(
                         soundSequence.BeginTrackSequenceEvent(
                             trackNum, events[0]))
                 contents.extend(events)
-                if not (isinstance(contents[-1],
-                                   soundSequence.EndTrackSequenceEvent)
-                        or isinstance(contents[-1],
-                                      soundSequence.JumpSequenceEvent)):
-                    contents.append(soundSequence.EndTrackSequenceEvent())
 
             if 0 not in self.tracks:
                 # Playback always begins on track 0
-- 
2.43.0


From 546ecf8fa40b5805d7a27dac117f5caaed05a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:32 +0000
Subject: [PATCH 35/52] fix: removing an initial event keeps jumps to it
 working

---
 ndspy/extras/music.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index ee49cb3..f53e18b 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -555,7 +555,13 @@ class SSEQMusic:
 
             elif value is None:
                 # An event exists and we're supposed to delete it.
-                self.events.remove(event)
+                # Jumps to it go to the event after it instead.
+                idx = self.events.index(event)
+                del self.events[idx]
+                following = (self.events + [self._end])[idx]
+                for e in self.events:
+                    if getattr(e, 'destination', None) is event:
+                        e.destination = following
 
             else:
                 # An event exists and we're supposed to give it a new
-- 
2.43.0


From 091862badf74ecbf4022687aec29290744a4e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:17 +0000
Subject: [PATCH 36/52] fix: minifying a bank without its wave archives raised
 TypeError

---
 ndspy/extras/music.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index f53e18b..bd7d1c3 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -128,23 +128,26 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
                 low = reg.lastPitch + 1
     usedWaves = sorted(usedWaves, key=lambda e: e[0] * 99999999 + e[1])
 
-    for swarNum, swar in enumerate(swars):
+    for swarNum, swar in enumerate(swars or []):
         newWaves = []
         for (swarNum2, swavNum) in usedWaves:
             if swarNum != swarNum2: continue
             newWaves.append(swar.waves[swavNum])
         swar.waves = newWaves
 
+    def newWaveID(d):
+        if swars is None: return d.waveID
+        return usedWaves.index((d.waveArchiveIDID, d.waveID))
+
     for inst in sbnk.instruments:
         if isinstance(inst, soundBank.SingleNoteInstrument):
-            inst.noteDefinition.waveID = usedWaves.index(
-                (inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID))
+            inst.noteDefinition.waveID = newWaveID(inst.noteDefinition)
         elif isinstance(inst, soundBank.RangeInstrument):
             filteredDefinitions = []
             dummyDefinition = inst.noteDefinitions[0]
             for d in inst.noteDefinitions:
                 if (d.waveArchiveIDID, d.waveID) in usedWaves:
-                    d.waveID = usedWaves.index((d.waveArchiveIDID, d.waveID))
+                    d.waveID = newWaveID(d)
                     filteredDefinitions.append(d)
                 else:
                     filteredDefinitions.append(dummyDefinition)
@@ -153,8 +156,7 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
             filteredRegions = []
             for reg in inst.regions:
                 if (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID) in usedWaves:
-                    reg.noteDefinition.waveID = usedWaves.index(
-                        (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID))
+                    reg.noteDefinition.waveID = newWaveID(reg.noteDefinition)
                     filteredRegions.append(
                         soundBank.RegionalInstrument.Region(
                             reg.lastPitch, reg.noteDefinition))
-- 
2.43.0


From 675c3dfe380a9962a4060809dbc322d3024b69ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:31 +0000
Subject: [PATCH 37/52] fix: minifying a bank treated duty cycles of PSG notes
 as wave IDs

---
 ndspy/extras/music.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index bd7d1c3..a0dd6c6 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -102,17 +102,24 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
     sbnk.inaccessibleInstruments.clear()
 
     # Remove unused entries in SWAR relative to SBNK
+    def usesWave(d):
+        # (PSG note definitions have a duty cycle there instead)
+        return d.type not in (soundBank.NoteType.PSG_SQUARE_WAVE,
+                              soundBank.NoteType.PSG_WHITE_NOISE)
+
     usedWaves = set()
     for inst, notes in zip(sbnk.instruments, playedNotesPerInst):
         if isinstance(inst, soundBank.SingleNoteInstrument):
-            usedWaves.add((inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID))
+            if usesWave(inst.noteDefinition):
+                usedWaves.add((inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID))
         elif isinstance(inst, soundBank.RangeInstrument):
             noteNum = inst.firstPitch - 1
             for d in inst.noteDefinitions:
                 noteNum += 1
                 if MINIFY_INSTRUMENTS and (noteNum not in notes):
                     continue
-                usedWaves.add((d.waveArchiveIDID, d.waveID))
+                if usesWave(d):
+                    usedWaves.add((d.waveArchiveIDID, d.waveID))
         elif isinstance(inst, soundBank.RegionalInstrument):
             low = 0
             for reg in inst.regions:
@@ -124,7 +131,8 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
                             break
                     else:
                         continue
-                usedWaves.add((reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID))
+                if usesWave(reg.noteDefinition):
+                    usedWaves.add((reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID))
                 low = reg.lastPitch + 1
     usedWaves = sorted(usedWaves, key=lambda e: e[0] * 99999999 + e[1])
 
@@ -136,7 +144,7 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
         swar.waves = newWaves
 
     def newWaveID(d):
-        if swars is None: return d.waveID
+        if swars is None or not usesWave(d): return d.waveID
         return usedWaves.index((d.waveArchiveIDID, d.waveID))
 
     for inst in sbnk.instruments:
@@ -146,7 +154,7 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
             filteredDefinitions = []
             dummyDefinition = inst.noteDefinitions[0]
             for d in inst.noteDefinitions:
-                if (d.waveArchiveIDID, d.waveID) in usedWaves:
+                if not usesWave(d) or (d.waveArchiveIDID, d.waveID) in usedWaves:
                     d.waveID = newWaveID(d)
                     filteredDefinitions.append(d)
                 else:
@@ -155,7 +163,8 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
         elif isinstance(inst, soundBank.RegionalInstrument):
             filteredRegions = []
             for reg in inst.regions:
-                if (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID) in usedWaves:
+                if (not usesWave(reg.noteDefinition)
+                        or (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID) in usedWaves):
                     reg.noteDefinition.waveID = newWaveID(reg.noteDefinition)
                     filteredRegions.append(
                         soundBank.RegionalInstrument.Region(
-- 
2.43.0


From 8eefd00b2b9f82f7c697944b549d0e368741b987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:31 +0000
Subject: [PATCH 38/52] fix: minifying a bank gave waves of all archives but
 the first wrong IDs

---
 ndspy/extras/music.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index a0dd6c6..588f6db 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -145,7 +145,8 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
 
     def newWaveID(d):
         if swars is None or not usesWave(d): return d.waveID
-        return usedWaves.index((d.waveArchiveIDID, d.waveID))
+        return usedWaves.index((d.waveArchiveIDID, d.waveID)) - sum(
+            archiveID < d.waveArchiveIDID for archiveID, _ in usedWaves)
 
     for inst in sbnk.instruments:
         if isinstance(inst, soundBank.SingleNoteInstrument):
-- 
2.43.0


From caffd1a487184d1a84a1e17625c28065485ee38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:53 +0000
Subject: [PATCH 39/52] fix: minified instruments no note of which is played
 could not be loaded again

---
 ndspy/extras/music.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 588f6db..653d9f0 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -148,12 +148,15 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
         return usedWaves.index((d.waveArchiveIDID, d.waveID)) - sum(
             archiveID < d.waveArchiveIDID for archiveID, _ in usedWaves)
 
+    # (a note definition that doesn't need any wave)
+    dummyDefinition = soundBank.NoteDefinition(
+        type=soundBank.NoteType.PSG_SQUARE_WAVE)
+
     for inst in sbnk.instruments:
         if isinstance(inst, soundBank.SingleNoteInstrument):
             inst.noteDefinition.waveID = newWaveID(inst.noteDefinition)
         elif isinstance(inst, soundBank.RangeInstrument):
             filteredDefinitions = []
-            dummyDefinition = inst.noteDefinitions[0]
             for d in inst.noteDefinitions:
                 if not usesWave(d) or (d.waveArchiveIDID, d.waveID) in usedWaves:
                     d.waveID = newWaveID(d)
@@ -170,9 +173,12 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
                     filteredRegions.append(
                         soundBank.RegionalInstrument.Region(
                             reg.lastPitch, reg.noteDefinition))
+            if not filteredRegions:
+                # An instrument without regions can't be loaded again
+                filteredRegions.append(
+                    soundBank.RegionalInstrument.Region(127, dummyDefinition))
             inst.regions = filteredRegions
-            if inst.regions:
-                inst.regions[-1].lastPitch = 127 # required
+            inst.regions[-1].lastPitch = 127 # required
 
 
 def minifyBySseq(sseq, sbnk, swars=None):
-- 
2.43.0


From 4422d2e97123780fe6985a74a38831f94cafad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:04 +0000
Subject: [PATCH 40/52] fix: minifyBySseq() did not work for sequences that
 have not been parsed

---
 ndspy/extras/music.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 653d9f0..af19ec8 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -191,7 +191,7 @@ def minifyBySseq(sseq, sbnk, swars=None):
     this function isn't for me." In most cases, what you actually have
     are three songs using three different copies of HGSS.
     """
-    minifyByEvents(sseq.events, sbnk, swars)
+    minifyBySseqs([sseq], sbnk, swars)
 
 
 def minifyBySseqs(sseqs, sbnk, swars=None):
-- 
2.43.0


From 9d6c52fb70b79fc91df8b7837c515e9d88eb38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:21 +0000
Subject: [PATCH 41/52] fix: minifying a bank renumbered shared note
 definitions several times

---
 ndspy/extras/music.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index af19ec8..b20374d 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -148,18 +148,22 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
         return usedWaves.index((d.waveArchiveIDID, d.waveID)) - sum(
             archiveID < d.waveArchiveIDID for archiveID, _ in usedWaves)
 
+    # (these are only renumbered at the end, and only once, since note
+    # definitions can be used in several places at once)
+    keptDefinitions = {}
+
     # (a note definition that doesn't need any wave)
     dummyDefinition = soundBank.NoteDefinition(
         type=soundBank.NoteType.PSG_SQUARE_WAVE)
 
     for inst in sbnk.instruments:
         if isinstance(inst, soundBank.SingleNoteInstrument):
-            inst.noteDefinition.waveID = newWaveID(inst.noteDefinition)
+            keptDefinitions[id(inst.noteDefinition)] = inst.noteDefinition
         elif isinstance(inst, soundBank.RangeInstrument):
             filteredDefinitions = []
             for d in inst.noteDefinitions:
                 if not usesWave(d) or (d.waveArchiveIDID, d.waveID) in usedWaves:
-                    d.waveID = newWaveID(d)
+                    keptDefinitions[id(d)] = d
                     filteredDefinitions.append(d)
                 else:
                     filteredDefinitions.append(dummyDefinition)
@@ -169,7 +173,7 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
             for reg in inst.regions:
                 if (not usesWave(reg.noteDefinition)
                         or (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID) in usedWaves):
-                    reg.noteDefinition.waveID = newWaveID(reg.noteDefinition)
+                    keptDefinitions[id(reg.noteDefinition)] = reg.noteDefinition
                     filteredRegions.append(
                         soundBank.RegionalInstrument.Region(
                             reg.lastPitch, reg.noteDefinition))
@@ -180,6 +184,9 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
             inst.regions = filteredRegions
             inst.regions[-1].lastPitch = 127 # required
 
+    for d in keptDefinitions.values():
+        d.waveID = newWaveID(d)
+
 
 def minifyBySseq(sseq, sbnk, swars=None):
     """
-- 
2.43.0


From 0c2dc635c40528323532fc037103c7f401451f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:44 +0000
Subject: [PATCH 42/52] fix: SWAR.fromFile() ignored its unk02 argument

---
 ndspy/soundWaveArchive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundWaveArchive.py b/ndspy/soundWaveArchive.py
index 4c216f7..651e10a 100644
--- a/ndspy/soundWaveArchive.py
+++ b/ndspy/soundWaveArchive.py
@@ -101,7 +101,7 @@ class SWAR:
         Load a SWAR from a filesystem file.
         """
         with open(filePath, 'rb') as f:
-            return cls(f.read(), unk02=0)
+            return cls(f.read(), unk02=unk02)
 
 
     def save(self):
-- 
2.43.0


From 33601f4aa37fec0be49182bf0cfab1b9e69e14df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:13 +0000
Subject: [PATCH 43/52] fix: Overlay.save() returned the overlay's own data,
 not a copy

---
 ndspy/code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 209c6f6..3f0e46c 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -391,7 +391,7 @@ class Overlay:
         if compress:
             data = codeCompression.compress(self.data, False)
         else:
-            data = self.data
+            data = bytes(self.data)
         self.compressedSize = len(data)
         self.compressed = compress
         return data
-- 
2.43.0


From 9bb61a4434b5f01dcd4fdf3102908a694425a636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:23 +0000
Subject: [PATCH 44/52] fix: saved banks and sequence players shared lists with
 the object saved

---
 ndspy/soundBank.py           | 2 +-
 ndspy/soundSequencePlayer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndspy/soundBank.py b/ndspy/soundBank.py
index 64376e9..909130f 100644
--- a/ndspy/soundBank.py
+++ b/ndspy/soundBank.py
@@ -779,7 +779,7 @@ class SBNK:
         struct.pack_into('<4sI32xI', data, 0x10,
             b'DATA', len(data) - 0x10, len(self.instruments))
 
-        return (data, self.unk02, self.waveArchiveIDs)
+        return (data, self.unk02, list(self.waveArchiveIDs))
 
 
     def saveToFile(self, filePath):
diff --git a/ndspy/soundSequencePlayer.py b/ndspy/soundSequencePlayer.py
index af79d58..7955d0d 100644
--- a/ndspy/soundSequencePlayer.py
+++ b/ndspy/soundSequencePlayer.py
@@ -34,7 +34,7 @@ class SequencePlayer:
         .heapSize as a triple. This matches the parameters of the
         default class constructor.
         """
-        return (self.maxSequences, self.channels, self.heapSize)
+        return (self.maxSequences, set(self.channels), self.heapSize)
 
 
     def __str__(self):
-- 
2.43.0


From d78741e131e562c9a8eac2812339ead405910b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:37 +0000
Subject: [PATCH 45/52] fix: escape single quotes in shortened byte literals

---
 ndspy/_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndspy/_common.py b/ndspy/_common.py
index 2ed57f9..95ea82d 100644
--- a/ndspy/_common.py
+++ b/ndspy/_common.py
@@ -110,6 +110,9 @@ def shortBytesRepr(data, maxLen=None):
         # so we don't shorten if the following byte is an ASCII digit
         if b < 8 and (i == len(data) - 1 or data[i + 1] not in range(0x30, 0x3A)):
             r.append(f'\\{b}')
+        elif b == 0x27:
+            # bytes.__repr__() avoids escaping this by using double quotes
+            r.append("\\'")
         else:
             r.append(repr(b.to_bytes(1, 'big'))[2:-1])
     r.append("'")
-- 
2.43.0


From 03e3a98592b8cec53977136068ddf5d0d7871da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:37 +0000
Subject: [PATCH 46/52] fix: show the channels of a stream player in its repr

---
 ndspy/soundStreamPlayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundStreamPlayer.py b/ndspy/soundStreamPlayer.py
index cef7053..9b7c594 100644
--- a/ndspy/soundStreamPlayer.py
+++ b/ndspy/soundStreamPlayer.py
@@ -40,7 +40,7 @@ class StreamPlayer:
 
 
     def __repr__(self):
-        if self.channels:
+        if not self.channels:
             return f'{type(self).__name__}()'
         else:
             return f'{type(self).__name__}({self.channels!r})'
-- 
2.43.0


From 18dfaeedf07b9c32daf6781a9bd117e918110e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:05 +0000
Subject: [PATCH 47/52] fix: tell null BMG messages apart in their repr

---
 ndspy/bmg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index b89b331..7e06b9c 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -465,7 +465,8 @@ class Message:
         return data
 
     def __repr__(self) -> str:
-        return f'{type(self).__name__}({self.info!r}, {self.stringParts!r})'
+        isNull = ', isNull=True' if self.isNull else ''
+        return f'{type(self).__name__}({self.info!r}, {self.stringParts!r}{isNull})'
 
     def __str__(self) -> str:
         return ''.join(str(s) for s in self.stringParts)
-- 
2.43.0


From 2c123e66ff57e00fd48fb8624e7d24f4570b6c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:37 +0000
Subject: [PATCH 48/52] fix: let the repr of looping sequence events end

---
 ndspy/soundSequence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 1882db6..be8216b 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -19,6 +19,7 @@ Support for SSEQs and their sequence events.
 """
 
 import enum
+import reprlib
 import struct
 
 from . import _common
@@ -450,6 +451,7 @@ class BeginTrackSequenceEvent(SequenceEvent):
     def __str__(self):
         return f'<begin track {self.trackNumber} id={id(self.firstEvent)}>'
 
+    @reprlib.recursive_repr()
     def __repr__(self):
         return f'{type(self).__name__}({self.trackNumber!r}, {self.firstEvent!r} at {id(self.firstEvent)})'
 
@@ -472,6 +474,7 @@ class JumpSequenceEvent(SequenceEvent):
     def __str__(self):
         return f'<jump id={id(self.destination)}>'
 
+    @reprlib.recursive_repr()
     def __repr__(self):
         return f'{type(self).__name__}({self.destination!r} at {id(self.destination)})'
 
@@ -495,6 +498,7 @@ class CallSequenceEvent(SequenceEvent):
     def __str__(self):
         return f'<call id={id(self.destination)}>'
 
+    @reprlib.recursive_repr()
     def __repr__(self):
         return f'{type(self).__name__}({self.destination!r} at {id(self.destination)})'
 
-- 
2.43.0


From 35aa584444d23a48a8935832f2ade9c760b1ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:57 +0000
Subject: [PATCH 49/52] fix: reading filename tables with subfolders from JSON
 in the tools

---
 tools/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/_common.py b/tools/_common.py
index 0b4ef6a..6a7d957 100644
--- a/tools/_common.py
+++ b/tools/_common.py
@@ -28,7 +28,7 @@ def convertDictToFilenamesTable(d):
     thisFolder = ndspy.fnt.Folder(firstID = d['first_id'])
     thisFolder.files = d.get('files', [])
     for folderName, folderDict in d.get('folders', []):
-        thisFolder.folders.append(folderName, convertDictToFilenamesTable(folderDict))
+        thisFolder.folders.append((folderName, convertDictToFilenamesTable(folderDict)))
     return thisFolder
 
 
-- 
2.43.0


From 5ee0422fafcb11f995ee4bba63713398e5e83330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:57 +0000
Subject: [PATCH 50/52] fix: FNT Tool could not read or write NARCs

---
 tools/fnttool.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/fnttool.py b/tools/fnttool.py
index 2013c5b..4a81c73 100644
--- a/tools/fnttool.py
+++ b/tools/fnttool.py
@@ -74,7 +74,7 @@ def main():
     elif args.input_rom:
         fnt = ndspy.rom.NintendoDSRom(ind).filenames
     elif args.input_narc:
-        fnt, _ = ndspy.narc.load(ind)
+        fnt = ndspy.narc.NARC(ind).filenames
 
     assert fnt is not None
 
@@ -99,8 +99,9 @@ def main():
         rom.filenames = fnt
         outd = rom.save()
     elif args.output_narc:
-        _, files = ndspy.narc.load(existing)
-        outd = ndspy.narc.save(fnt, files)
+        narc = ndspy.narc.NARC(existing)
+        narc.filenames = fnt
+        outd = narc.save()
 
     assert outd is not None
 
-- 
2.43.0


From d20956d8603d69ba465b4ca3d371b1b26353fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:57 +0000
Subject: [PATCH 51/52] fix: LZ10 Tool failed for empty files

---
 tools/lz10tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lz10tool.py b/tools/lz10tool.py
index e082f49..935fa16 100644
--- a/tools/lz10tool.py
+++ b/tools/lz10tool.py
@@ -40,7 +40,7 @@ def main():
         # LZ10-compressed files always start with 0x10.
         # This will turn up a few false positives, but it should be
         # a relatively good heuristic.
-        shouldCompress = ind[0] != 0x10
+        shouldCompress = ind[:1] != b'\x10'
 
     outfile = args.outfile
     if outfile is None:
-- 
2.43.0


From 43575201d11fcaaada0b98682202f4d2979a8d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:57 +0000
Subject: [PATCH 52/52] fix: low-level extraction of NARCs

---
 tools/narctool.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/narctool.py b/tools/narctool.py
index 54c820f..c9dd098 100644
--- a/tools/narctool.py
+++ b/tools/narctool.py
@@ -66,9 +66,11 @@ def main():
     if shouldExtract:
         with open(args.infile, 'rb') as f:
             ind = f.read()
-        filenames, files = ndspy.narc.load(ind)
+        narc = ndspy.narc.NARC(ind)
+        filenames, files = narc.filenames, narc.files
 
         if args.lowlevel:
+            os.makedirs(outfile, exist_ok=True)
             fnt = _common.fntToJson(filenames)
             with open(os.path.join(outfile, 'filenames.json'),
                       'w', encoding='utf-8') as f:
-- 
2.43.0

