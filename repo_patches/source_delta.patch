From 0f1e5a2110d9c52a9b8725a00901d50616fa4180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:24 +0000
Subject: [PATCH 01/35] fix: PLT/PLM packet length parser loops forever on
 unterminated last length

---
 jpylyzer/boxvalidator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 5f5ef9e..76cf861 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -267,7 +267,10 @@ class BoxValidator:
         while i < lpl and i < len(
                 self.boxContents):  # Don't over-read on bad lplt/lplm
             ipl_i_len = 1  # number of bytes making up the current ipl(t|m)_i
-            while bc.bytesToUnsignedChar(
+            # Don't run past the end of the data if the last byte still has
+            # its continuation bit set
+            while i + ipl_i_len < min(lpl, len(self.boxContents)) and \
+                bc.bytesToUnsignedChar(
                     self.boxContents[i + ipl_i_len - 1:i + ipl_i_len]) & 0x80:
                 ipl_i_len += 1
 
-- 
2.43.0


From 8c73a8f951f101dc49d26b746fddb426d2286b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:24 +0000
Subject: [PATCH 02/35] fix: packet lengths of 3 or more bytes in PLT/PLM lose
 their leading bits

---
 jpylyzer/boxvalidator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 76cf861..9708710 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -275,11 +275,11 @@ class BoxValidator:
                 ipl_i_len += 1
 
             # Join all the segments together
-            iplt_i = bc.bytesToUnsignedChar(self.boxContents[i:i + 1])
-            for ipl_index in range(1, ipl_i_len):
-                iplt_i = (iplt_i & 0x7F) << 7
+            iplt_i = 0
+            for ipl_index in range(ipl_i_len):
+                iplt_i = iplt_i << 7
                 iplt_i |= bc.bytesToUnsignedChar(
-                    self.boxContents[i + ipl_index:i + ipl_index + 1])
+                    self.boxContents[i + ipl_index:i + ipl_index + 1]) & 0x7F
 
             i += ipl_i_len
             iplt += ('{:0' + str(2 * ipl_i_len) + 'X},').format(iplt_i)
-- 
2.43.0


From 3aeb787ee1a2d932c14bd94e933ffa9dad49ebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:24 +0000
Subject: [PATCH 03/35] fix: truncated SOT segment makes tile-part loop jump
 backwards forever

---
 jpylyzer/boxvalidator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 9708710..28d3e5b 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1676,12 +1676,13 @@ class BoxValidator:
                         # tilePartsPerTileFound (e.g. because the isot field is
                         # damaged)
                         break
-                    if offsetNext != offset:
+                    if offsetNext > offset:
                         offset = offsetNext
                     else:
                         # offsetNext same as offset: this happens if image only contains
                         # one single tile-part (psot=0), in which case we break out of
-                        # this loop
+                        # this loop. Smaller than offset: psot is cut off, in which case
+                        # there is no next tile-part either
                         break
 
             # Length of tileIndices must equal numberOfTilesExpected
-- 
2.43.0


From 09f9f81379d2b6387e08ebfbcfb055ae387f3b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:24 +0000
Subject: [PATCH 04/35] fix: undefined 'capability' for 4k IMF reversible
 profile and unknown rsiz values

---
 jpylyzer/boxvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 28d3e5b..227f7c4 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1811,6 +1811,8 @@ class BoxValidator:
                 capability = "Scalable 4K digital cinema profile"
             elif mainLevel == 7:
                 capability = "Long-term storage profile"
+            else:
+                capability = "Unknown (value not defined in ISO/IEC 15444-1)"
         elif profile == 1:
             capability = "Broadcast Contribution Single Tile Profile, Mainlevel " + \
                 str(mainLevel)
@@ -1833,7 +1835,7 @@ class BoxValidator:
             capability = "2k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 8:
-            rsiz = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
+            capability = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 9:
             capability = "8k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
-- 
2.43.0


From 281d2f7c1ae7b2312055bc32a4671c1de436fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:24 +0000
Subject: [PATCH 05/35] fix: compression ratio of raw codestreams uses
 horizontal offset as vertical offset

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 227f7c4..63d9e60 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1733,7 +1733,7 @@ class BoxValidator:
                 # Calculate compression ratio
                 ssizDepthValues = characteristicsSIZ.findAllText('ssizDepth')
                 ysiz = characteristicsSIZ.findElementText('ysiz')
-                yOsiz = characteristicsSIZ.findElementText('xOsiz')
+                yOsiz = characteristicsSIZ.findElementText('yOsiz')
                 xsiz = characteristicsSIZ.findElementText('xsiz')
                 xOsiz = characteristicsSIZ.findElementText('xOsiz')
 
-- 
2.43.0


From d5330835a244ead57e7b50a758d9b0d9a24b823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:24 +0000
Subject: [PATCH 06/35] fix: QCC step sizes are read one byte too early

---
 jpylyzer/boxvalidator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 63d9e60..3dd55e9 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2528,6 +2528,7 @@ class BoxValidator:
 
         # Quantization style for this component
         sqcc = bc.bytesToUnsignedChar(self.boxContents[offset:offset + 1])
+        offset += 1
 
         # sqcc contains 2 quantization parameters: style + no of guard bits
 
-- 
2.43.0


From e0778e92f7c5aa93d82c954c9cd03eced6f4f890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:24 +0000
Subject: [PATCH 07/35] fix: bPCIsValid accepts every non-zero bPC value

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 3dd55e9..6a9a02c 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -538,7 +538,7 @@ class BoxValidator:
         # 1. bPCDepth in range 1-38 (including limits)
         # 2. OR bPC equal 255 (indicating that components vary in bit depth)
         bPCDepthIsWithinAllowedRange = 1 <= bPCDepth <= 38
-        bitDepthIsVariable = 1 <= bPC <= 255
+        bitDepthIsVariable = bPC == 255
 
         if bPCDepthIsWithinAllowedRange or bitDepthIsVariable:
             bPCIsValid = True
-- 
2.43.0


From 3aa08dfae3c00360b903ca5a39f507967431d40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:10 +0000
Subject: [PATCH 08/35] fix: resolution denominator of zero ends analysis with
 an internal error

---
 jpylyzer/boxvalidator.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 6a9a02c..9dc191c 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1216,11 +1216,19 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vRescInPixelsPerMeter = (vRcN / vRcD) * (10 ** (vRcE))
+        if vRcD != 0:
+            vRescInPixelsPerMeter = (vRcN / vRcD) * (10 ** (vRcE))
+        else:
+            # Bogus value (prevents zero-division, only happens for invalid files)
+            vRescInPixelsPerMeter = 0
         self.addCharacteristic(
             "vRescInPixelsPerMeter", round(vRescInPixelsPerMeter, 2))
 
-        hRescInPixelsPerMeter = (hRcN / hRcD) * (10 ** (hRcE))
+        if hRcD != 0:
+            hRescInPixelsPerMeter = (hRcN / hRcD) * (10 ** (hRcE))
+        else:
+            # Bogus value (prevents zero-division, only happens for invalid files)
+            hRescInPixelsPerMeter = 0
         self.addCharacteristic(
             "hRescInPixelsPerMeter", round(hRescInPixelsPerMeter, 2))
 
@@ -1275,11 +1283,19 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vResdInPixelsPerMeter = (vRdN / vRdD) * (10 ** (vRdE))
+        if vRdD != 0:
+            vResdInPixelsPerMeter = (vRdN / vRdD) * (10 ** (vRdE))
+        else:
+            # Bogus value (prevents zero-division, only happens for invalid files)
+            vResdInPixelsPerMeter = 0
         self.addCharacteristic(
             "vResdInPixelsPerMeter", round(vResdInPixelsPerMeter, 2))
 
-        hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** (hRdE))
+        if hRdD != 0:
+            hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** (hRdE))
+        else:
+            # Bogus value (prevents zero-division, only happens for invalid files)
+            hResdInPixelsPerMeter = 0
         self.addCharacteristic(
             "hResdInPixelsPerMeter", round(hResdInPixelsPerMeter, 2))
 
-- 
2.43.0


From 42db6133a8371e57908bed655499c45c7c4e23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:10 +0000
Subject: [PATCH 09/35] fix: UUID and UUID List boxes that are too short end
 analysis with an internal error

---
 jpylyzer/boxvalidator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 9dc191c..1d87cde 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -3333,6 +3333,10 @@ class BoxValidator:
         # Check box size, which must be greater than 16 bytes
         self.testFor("boxLengthIsValid", boxLength > 16)
 
+        # Nothing to report if box is too short to hold a UUID
+        if boxLength < 16:
+            return
+
         # First 16 bytes contain UUID, convert to string of hex digits
         # in standard form
         boxUUID = str(uuid.UUID(bytes=self.boxContents[0:16]))
@@ -3433,6 +3437,9 @@ class BoxValidator:
         # Loop through all UUIDs
         offset = 2
         for _ in range(nU):
+            # Stop if box is too short to hold the next UUID
+            if offset + 16 > len(self.boxContents):
+                break
             boxUUID = str(
                 uuid.UUID(bytes=self.boxContents[offset:offset + 16]))
             self.addCharacteristic("uuid", boxUUID)
-- 
2.43.0


From 9816d2b3562d675fbb4acb55305b66877bc74de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:10 +0000
Subject: [PATCH 10/35] fix: PRF/CPF profile numbers repeat the first value and
 last-value test never runs

---
 jpylyzer/boxvalidator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 1d87cde..24522c0 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2891,8 +2891,9 @@ class BoxValidator:
 
         for i in range(nopprfs):
             pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
-            PRFnum += pprf * 2 ** (16 * i)
-            if i == nopprfs:
+            offset += 2
+            PRFnum += pprf << (16 * i)
+            if i == nopprfs - 1:
                 # last pprf shall not be zero
                 self.testFor("pprfIsValid", pprf != 0)
 
@@ -2919,8 +2920,9 @@ class BoxValidator:
 
         for i in range(nopcpfs):
             pcpf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
-            CPFnum += pcpf * 2 ** (16 * i)
-            if i == nopcpfs:
+            offset += 2
+            CPFnum += pcpf << (16 * i)
+            if i == nopcpfs - 1:
                 # last pcpf shall not be zero
                 if self.format in ['jph', 'jhc']:
                     self.testFor("pcpfIsValid", pcpf != 0)
-- 
2.43.0


From 23a3bdfa139f0cf49943ac180023ad78ffbc9f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:10 +0000
Subject: [PATCH 11/35] fix: length test of CPF segment is reported under wrong
 name

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 24522c0..409e387 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2909,7 +2909,7 @@ class BoxValidator:
 
         # lcpf  must be within range 4-65534
         if self.format in ['jph', 'jhc']:
-            self.testFor("lcpIsValid", 4 <= lcpf <= 65534)
+            self.testFor("lcpfIsValid", 4 <= lcpf <= 65534)
 
         # Number of pcpf entries
         nopcpfs = int((lcpf - 2) / 2)
-- 
2.43.0


From eb5ea83f1f095619d5cf5a529bddd792baf310e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:10 +0000
Subject: [PATCH 12/35] fix: very large PRF/CPF profile numbers end analysis
 with an internal error

---
 jpylyzer/etpatch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/etpatch.py b/jpylyzer/etpatch.py
index 741d15e..6c11da2 100644
--- a/jpylyzer/etpatch.py
+++ b/jpylyzer/etpatch.py
@@ -19,6 +19,7 @@ TODO:
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #
 
+import decimal
 import xml.etree.ElementTree as ET
 from . import byteconv as bc
 from . import config
@@ -123,7 +124,12 @@ class Element(ET.Element):
                 if textType == bytes:
                     textOut = bc.bytesToText(remappedValue)
                 elif textType in numericTypes:
-                    textOut = str(remappedValue)
+                    try:
+                        textOut = str(remappedValue)
+                    except ValueError:
+                        # Recent Python versions refuse direct conversion of
+                        # very large integers
+                        textOut = format(decimal.Decimal(remappedValue), 'f')
                 else:
                     textOut = bc.removeControlCharacters(remappedValue)
 
-- 
2.43.0


From 3cd2cb4e3d68370055431cc13ba02946f31e7acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:08 +0000
Subject: [PATCH 13/35] fix: missing entries of truncated boxes and segments
 are reported up to 65535 times

---
 jpylyzer/boxvalidator.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 409e387..a85f9f5 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1108,6 +1108,9 @@ class BoxValidator:
                 alphaChannels.append([cTyp, cAssoc])
 
             offset += 6
+            # Stop at first entry that is cut off by the end of the data
+            if cAssoc == -9999:
+                break
 
         if self.format == 'jph':
             # At most one cTyp field shall be equal to 1 or 2
@@ -1986,6 +1989,9 @@ class BoxValidator:
             self.testFor("yRsizIsValid", 1 <= yRsiz <= 255)
 
             offset += 3
+            # Stop at first entry that is cut off by the end of the data
+            if yRsiz == -9999:
+                break
 
     def validate_cod(self):
         """Coding style default (COD) header fields (ISO/IEC 15444-1 Section A.6.1);
@@ -2485,6 +2491,9 @@ class BoxValidator:
             for _ in range(levels):
                 spqcd = bc.bytesToUnsignedChar(
                     self.boxContents[offset:offset + 1])
+                # Stop at first entry that is cut off by the end of the data
+                if spqcd == -9999:
+                    break
 
                 # 5 most significant bits -> exponent epsilon in Eq E-5
                 epsilon = (spqcd >> 3) & 31
@@ -2506,6 +2515,9 @@ class BoxValidator:
             for _ in range(levels):
                 spqcd = bc.bytesToUShortInt(
                     self.boxContents[offset:offset + 2])
+                # Stop at first entry that is cut off by the end of the data
+                if spqcd == -9999:
+                    break
 
                 # 11 least significant bits: mu in Eq E-3
                 mu = spqcd & 2047
@@ -2582,6 +2594,9 @@ class BoxValidator:
             for _ in range(levels):
                 spqcc = bc.bytesToUnsignedChar(
                     self.boxContents[offset:offset + 1])
+                # Stop at first entry that is cut off by the end of the data
+                if spqcc == -9999:
+                    break
 
                 # 5 most significant bits -> exponent epsilon in Eq E-5
                 epsilon = (spqcc >> 3) & 31
@@ -2603,6 +2618,9 @@ class BoxValidator:
             for _ in range(levels):
                 spqcc = bc.bytesToUShortInt(
                     self.boxContents[offset:offset + 2])
+                # Stop at first entry that is cut off by the end of the data
+                if spqcc == -9999:
+                    break
 
                 # 11 least significant bits: mu in Eq E-3
                 mu = spqcc & 2047
@@ -2701,6 +2719,9 @@ class BoxValidator:
             orderIsValid = order in [0, 1, 2, 3, 4]
             self.testFor("orderIsValid", orderIsValid)
             offset += 1
+            # Stop at first entry that is cut off by the end of the data
+            if order == -9999:
+                break
 
     def validate_crg(self):
         """Component registration (CRG) marker (ISO/IEC 15444-1 Section A.9.1)."""
@@ -2727,6 +2748,9 @@ class BoxValidator:
             ycrgIsValid = 0 <= ycrg <= 65535
             self.testFor("ycrgIsValid", ycrgIsValid)
             offset += 2
+            # Stop at first entry that is cut off by the end of the data
+            if ycrg == -9999:
+                break
 
     def validate_com(self):
         """Codestream comment (COM) (ISO/IEC 15444-1 Section A.9.2)."""
@@ -2891,6 +2915,9 @@ class BoxValidator:
 
         for i in range(nopprfs):
             pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
+            # Stop at first entry that is cut off by the end of the data
+            if pprf == -9999:
+                break
             offset += 2
             PRFnum += pprf << (16 * i)
             if i == nopprfs - 1:
@@ -2920,6 +2947,9 @@ class BoxValidator:
 
         for i in range(nopcpfs):
             pcpf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
+            # Stop at first entry that is cut off by the end of the data
+            if pcpf == -9999:
+                break
             offset += 2
             CPFnum += pcpf << (16 * i)
             if i == nopcpfs - 1:
-- 
2.43.0


From d6da7369bbd3ecb015d0cd643e07a284f1b8a537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:08 +0000
Subject: [PATCH 14/35] fix: palette values are read in wrong order if palette
 has more than one column

---
 jpylyzer/boxvalidator.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index a85f9f5..8cb5a20 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -968,9 +968,19 @@ class BoxValidator:
         # nPC within range 1-255
         self.testFor("nPCIsValid", 1 <= nPC <= 255)
 
+        # Number of bytes used by the values of each column (values that are
+        # not a multiple of 8 bits are padded)
+        columnBytes = [int(math.ceil(((b & 127) + 1) / 8))
+                       for b in self.boxContents[3:3 + max(nPC, 0)]]
+
         # Following parameters are repeated for each column
         for i in range(nPC):
 
+            # Stop if box is too short to hold the bit depth of this column
+            if i >= len(columnBytes):
+                self.testFor("bDepthIsValid", False)
+                break
+
             # Bit depth of values created by column i
             b = bc.bytesToUnsignedChar(self.boxContents[3 + i:4 + i])
 
@@ -992,13 +1002,17 @@ class BoxValidator:
             # If bDepth is not a multiple of 8 bits add padding bits
             # E.g. if bDepth is 10, bDepthPadded will be 16 bits, and
             # C value will be stored in low 10 bits of 16-bit field
-            bDepthPadded = math.ceil(bDepth / 8) * 8
-            bytesPadded = int(bDepthPadded / 8)
+            bytesPadded = columnBytes[i]
 
-            # Start offset of cP entries for this column
-            offset = nPC + 3 + i * (nE * bytesPadded)
+            # Start offset of first cP entry for this column. Values are stored
+            # row by row, so each entry holds one value for every column
+            offset = nPC + 3 + sum(columnBytes[:i])
 
             for _ in range(nE):
+                # Stop if box is too short to hold this entry
+                if offset + bytesPadded > len(self.boxContents):
+                    break
+
                 # Get bytes for this entry
                 cPAsBytes = self.boxContents[offset:offset + bytesPadded]
 
@@ -1007,7 +1021,7 @@ class BoxValidator:
                 cP = bc.bytesToInteger(cPAsBytes)
                 self.addCharacteristic("cP", cP)
 
-                offset += bytesPadded
+                offset += sum(columnBytes)
 
     def validate_componentMappingBox(self):
         """Component mapping box (ISO/IEC 15444-1 Section I.5.3.5).
-- 
2.43.0


From 80593a4d21511f2b7c0e5658ca92627fd5c5af71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 15/35] fix: ICC profile flags and device attributes are read
 from unused high-order bits

---
 jpylyzer/boxvalidator.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 8cb5a20..55f0329 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -820,17 +820,17 @@ class BoxValidator:
         primaryPlatform = self.boxContents[40:44]
         self.addCharacteristic("primaryPlatform", primaryPlatform)
 
-        # Profile flags (bytes 44-47; only first byte read here as remaining bytes
-        # don't contain any meaningful information)
-        profileFlags = bc.bytesToUnsignedChar(self.boxContents[44:45])
+        # Profile flags (bytes 44-47; only last byte, which holds the least significant
+        # bits, is read here as remaining bytes don't contain any meaningful information)
+        profileFlags = bc.bytesToUnsignedChar(self.boxContents[47:48])
 
         # Embedded profile (0 if not embedded, 1 if embedded in file)
-        embeddedProfile = self._getBitValue(profileFlags, 1)
+        embeddedProfile = self._getBitValue(profileFlags, 8)
         self.addCharacteristic("embeddedProfile", embeddedProfile)
 
         # Profile cannot be used independently from embedded colour data
         # (1 if true, 0 if false)
-        profileCannotBeUsedIndependently = self._getBitValue(profileFlags, 2)
+        profileCannotBeUsedIndependently = self._getBitValue(profileFlags, 7)
         self.addCharacteristic(
             "profileCannotBeUsedIndependently",
             profileCannotBeUsedIndependently)
@@ -843,24 +843,24 @@ class BoxValidator:
         deviceModel = self.boxContents[52:56]
         self.addCharacteristic("deviceModel", deviceModel)
 
-        # Device attributes (bytes 56-63; only first byte read here as remaining bytes
-        # don't contain any meaningful information)
-        deviceAttributes = bc.bytesToUnsignedChar(self.boxContents[56:57])
+        # Device attributes (bytes 56-63; only last byte, which holds the least significant
+        # bits, is read here as remaining bytes don't contain any meaningful information)
+        deviceAttributes = bc.bytesToUnsignedChar(self.boxContents[63:64])
 
         # Transparency (1 = transparent; 0 = reflective)
-        transparency = self._getBitValue(deviceAttributes, 1)
+        transparency = self._getBitValue(deviceAttributes, 8)
         self.addCharacteristic("transparency", transparency)
 
         # Glossiness (1 = matte; 0 = glossy)
-        glossiness = self._getBitValue(deviceAttributes, 2)
+        glossiness = self._getBitValue(deviceAttributes, 7)
         self.addCharacteristic("glossiness", glossiness)
 
         # Media polarity (1 = negative; 0 = positive)
-        polarity = self._getBitValue(deviceAttributes, 3)
+        polarity = self._getBitValue(deviceAttributes, 6)
         self.addCharacteristic("polarity", polarity)
 
         # Media colour (1 = black & white; 0 = colour)
-        colour = self._getBitValue(deviceAttributes, 4)
+        colour = self._getBitValue(deviceAttributes, 5)
         self.addCharacteristic("colour", colour)
 
         # Rendering intent (bytes 64-67, only least-significant 2 bytes used)
-- 
2.43.0


From a7f208a9a34dea03d828919f0542472e521003a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 16/35] fix: ICC primary platform signature of Silicon Graphics
 is never recognised

---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index b95af40..ce9e749 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -128,7 +128,7 @@ def generatePropertiesRemapTable():
     primaryPlatformMap = {}
     primaryPlatformMap[b'APPL'] = "Apple Computer, Inc."
     primaryPlatformMap[b'MSFT'] = "Microsoft Corporation"
-    primaryPlatformMap[b'SGI'] = "Silicon Graphics, Inc."
+    primaryPlatformMap[b'SGI '] = "Silicon Graphics, Inc."
     primaryPlatformMap[b'SUNW'] = "Sun Microsystems, Inc."
 
     # Transparency (ICC)
-- 
2.43.0


From e799e65a3bf238cfa1d9b9e4e064e343dcac5fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 17/35] fix: box type cut off after 2 bytes is mistaken for a
 codestream marker

---
 jpylyzer/boxvalidator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 55f0329..6c58ad5 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -142,6 +142,10 @@ class BoxValidator:
 
         # Box type
         boxType = self.boxContents[byteStart + 4:byteStart + 8]
+        if len(boxType) != 4:
+            # Type is cut off (a 2-byte remainder must not be mistaken for
+            # a codestream marker)
+            boxType = b''
 
         # Start byte of box contents
         contentsStartOffset = 8
-- 
2.43.0


From 73d0f5f7e8f7f59aa3b0c3659f561fe599ad44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 18/35] fix: valid codestream rejected if only some tiles state
 their number of tile-parts

---
 jpylyzer/boxvalidator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 6c58ad5..502e956 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1727,9 +1727,14 @@ class BoxValidator:
                 tileIndices) == numberOfTilesExpected)
 
             # Found numbers of tile	parts per tile must match expected
+            # (tiles whose number of tile parts is not defined by any of their
+            # headers are not taken into account)
             if tilePartsPerTileExpected:
+                tilePartsPerTileCounted = {
+                    tile: found for tile, found in tilePartsPerTileFound.items()
+                    if tile in tilePartsPerTileExpected or found == 0}
                 self.testFor("foundExpectedNumberOfTileParts",
-                            tilePartsPerTileExpected == tilePartsPerTileFound)
+                            tilePartsPerTileExpected == tilePartsPerTileCounted)
 
             # Add tile-part tests, characteristics and warnings to tree
             self.tests.appendIfNotEmpty(tilePartTests)
-- 
2.43.0


From c25d015882520b996e86be2ffb07dbfc63cc8ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 19/35] fix: I/O errors are never reported as such

---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index ce9e749..c7d5bbd 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -428,7 +428,7 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
 
         if exceptionType == MemoryError:
             failureMessage = "memory error (file size too large)"
-        elif exceptionType == IOError:
+        elif issubclass(exceptionType, IOError):
             failureMessage = "I/O error (cannot open file)"
         elif exceptionType == RuntimeError:
             failureMessage = "runtime error, please report to developers by creating " + \
-- 
2.43.0


From 6aa89a86271cf7a06339f0268dc70e0bdfeff52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 20/35] fix: file dates outside supported range raise an
 exception

---
 jpylyzer/jpylyzer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index c7d5bbd..a4d0161 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,7 +33,6 @@ Contributors:
 
 import sys
 import os
-import time
 import datetime
 import glob
 import argparse
@@ -365,10 +364,10 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     try:
         dt = os.path.getmtime(path)
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
-    except ValueError:
+    except (ValueError, OverflowError, OSError):
         # Dates earlier than 1 Jan 1970 can raise ValueError on Windows
         # Workaround: replace by lowest possible value (typically 1 Jan 1970)
-        dt = time.ctime(0)
+        dt = 0
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
     fileInfo.appendChildTagWithText(
         "fileLastModified", lastModifiedDate)
-- 
2.43.0


From 68fd77d8efcab29a52e8893af0ee331ba466cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 21/35] fix: dangling links and special files in a directory
 tree abort the run

---
 jpylyzer/jpylyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index a4d0161..b99e77c 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -547,7 +547,8 @@ def getFilesFromTree(rootDir):
 
         for filename in filenames:
             thisFile = os.path.join(dirname, filename)
-            EXISTING_FILES.append(thisFile)
+            if os.path.isfile(thisFile):
+                EXISTING_FILES.append(thisFile)
 
 
 def findFiles(recurse, paths):
-- 
2.43.0


From 86bad4540223f9a5beeb030fcc901582c9e6d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 22/35] fix: wildcard recursion skips directories with special
 characters in their name

---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index b99e77c..45df64c 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -530,7 +530,7 @@ def getFilesWithPatternFromTree(rootDir, pattern):
         for subdirname in dirnames:
             thisDirectory = os.path.join(dirname, subdirname)
             # find files matching the pattern in current path
-            searchpattern = os.path.join(thisDirectory, pattern)
+            searchpattern = os.path.join(glob.escape(thisDirectory), pattern)
             getFiles(searchpattern)
 
 
-- 
2.43.0


From ae9274a39c12cf7a1dad59e92fee2adacbb50d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 23/35] fix: requesting MIX output for a raw codestream raises
 an exception

---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 45df64c..292d750 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -442,7 +442,7 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
         warnings.appendChildTagWithText("warning", failureMessage)
         shared.printWarning(failureMessage)
 
-    if mixFlag != 0 and fileIsValid:
+    if mixFlag != 0 and validationFormat in ['jp2', 'jph'] and fileIsValid:
         mixProperties = mix.Mix(mixFlag).generateMix(characteristics)
 
     # Add status info
-- 
2.43.0


From 059f15227a31fe86e4925a7381ff7fef0d42ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 24/35] fix: MIX output fails for JPH images without enumerated
 or ICC colour space

---
 jpylyzer/mix.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 25bde6d..1815880 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -104,11 +104,15 @@ class Mix:
             mixPI.append(mixColorProfile)
             mixBic.append(mixPI)
         else:
-            mixPI = ET.Element('mix:PhotometricInterpretation')
-            colorSpace = properties.find(
-                'jp2HeaderBox/colourSpecificationBox/enumCS').text
-            mixPI.appendChildTagWithText('mix:colorSpace', colorSpace.strip())
-            mixBic.append(mixPI)
+            # Not present in JPH images without colour specification or with
+            # parameterized colour space
+            enumCS = properties.find(
+                'jp2HeaderBox/colourSpecificationBox/enumCS')
+            if enumCS is not None:
+                mixPI = ET.Element('mix:PhotometricInterpretation')
+                mixPI.appendChildTagWithText(
+                    'mix:colorSpace', enumCS.text.strip())
+                mixBic.append(mixPI)
         mixBio.append(mixBic)
 
         mixSFC = ET.Element('mix:SpecialFormatCharacteristics')
-- 
2.43.0


From 6593d6acb1253469a41dd12f5b60cc99b03508cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 25/35] fix: MIX output fails if XMP metadata has no
 rdf:Description element

---
 jpylyzer/mix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 1815880..afcdbcf 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -163,7 +163,10 @@ class Mix:
         if value is not None:
             return value.text
 
-        value = prop.find(prefixPath).attrib.get(ns + tag, None)
+        parent = prop.find(prefixPath)
+        if parent is None:
+            return None
+        value = parent.attrib.get(ns + tag, None)
         if value and value is not None:
             return value
         return None
-- 
2.43.0


From 48be346d02b337cf381585b9a6218c4d69e14afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 26/35] fix: sampling frequencies in MIX output are off by one
 due to truncation

---
 jpylyzer/mix.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index afcdbcf..1c70c50 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -264,26 +264,30 @@ class Mix:
             'jp2HeaderBox/resolutionBox/captureResolutionBox')
         if resolutionBox is not None:
             numX = int(
-                float(
-                    resolutionBox.find('hRescInPixelsPerMeter').text) *
-                100)
+                round(
+                    float(
+                        resolutionBox.find('hRescInPixelsPerMeter').text) *
+                    100))
             numY = int(
-                float(
-                    resolutionBox.find('vRescInPixelsPerMeter').text) *
-                100)
+                round(
+                    float(
+                        resolutionBox.find('vRescInPixelsPerMeter').text) *
+                    100))
         else:
             # Then try the displayResolutionBox
             resolutionBox = properties.find(
                 'jp2HeaderBox/resolutionBox/displayResolutionBox')
             if resolutionBox is not None:
                 numX = int(
-                    float(
-                        resolutionBox.find('hResdInPixelsPerMeter').text) *
-                    100)
+                    round(
+                        float(
+                            resolutionBox.find('hResdInPixelsPerMeter').text) *
+                        100))
                 numY = int(
-                    float(
-                        resolutionBox.find('vResdInPixelsPerMeter').text) *
-                    100)
+                    round(
+                        float(
+                            resolutionBox.find('vResdInPixelsPerMeter').text) *
+                        100))
         if resolutionBox is not None:
             mixSm = ET.Element('mix:SpatialMetrics')
             if self.mixFlag == 1:
-- 
2.43.0


From 7b839a287e37b9605594cdc58a82af1501b456fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 27/35] fix: control characters in file names make XML output
 ill-formed

---
 jpylyzer/jpylyzer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 292d750..a5f5727 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,6 +33,7 @@ Contributors:
 
 import sys
 import os
+import re
 import datetime
 import glob
 import argparse
@@ -353,8 +354,8 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
 
     # If file name / path contain any surrogate pairs, remove them to
     # avoid problems when writing to XML
-    fileNameCleaned = stripSurrogatePairs(fileName)
-    filePathCleaned = stripSurrogatePairs(filePath)
+    fileNameCleaned = stripIllegalXMLChars(stripSurrogatePairs(fileName))
+    filePathCleaned = stripIllegalXMLChars(stripSurrogatePairs(filePath))
 
     # Produce some general tool and file meta info
     fileInfo.appendChildTagWithText("fileName", fileNameCleaned)
@@ -512,6 +513,12 @@ def stripSurrogatePairs(ustring):
     return ustring
 
 
+def stripIllegalXMLChars(ustring):
+    """Remove characters that are not allowed in XML from a Unicode string."""
+    return re.sub(
+        u'[^\t\n\r\u0020-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]', '', ustring)
+
+
 def getFiles(searchpattern):
     """Append paths of all files that match search pattern to EXISTING_FILES."""
     results = glob.glob(searchpattern)
-- 
2.43.0


From 9e65104f48828d516cabd6284a30c488a24ea790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 28/35] fix: schema rejects output for valid images with
 vidFRng or large resolutions

---
 xsd/jpylyzer-v-2-2.xsd | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xsd/jpylyzer-v-2-2.xsd b/xsd/jpylyzer-v-2-2.xsd
index f812e44..c8bc622 100644
--- a/xsd/jpylyzer-v-2-2.xsd
+++ b/xsd/jpylyzer-v-2-2.xsd
@@ -274,7 +274,7 @@
   <xs:element name="colPrims" type="xs:integer"/>
   <xs:element name="transfC" type="xs:integer"/>
   <xs:element name="matCoeffs" type="xs:integer"/>
-  <xs:element name="vidFRng" type="xs:integer"/>
+  <xs:element name="vidFRng" type="xs:string"/>
 
   <xs:element name="icc">
     <xs:complexType>
@@ -417,10 +417,10 @@
   <xs:element name="hRcD" type="xs:integer"/>
   <xs:element name="vRcE" type="xs:integer"/>
   <xs:element name="hRcE" type="xs:integer"/>
-  <xs:element name="vRescInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="hRescInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="vRescInPixelsPerInch" type="xs:decimal"/>
-  <xs:element name="hRescInPixelsPerInch" type="xs:decimal"/>  
+  <xs:element name="vRescInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="hRescInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="vRescInPixelsPerInch" type="xs:double"/>
+  <xs:element name="hRescInPixelsPerInch" type="xs:double"/>  
   
   <xs:element name="displayResolutionBox">
     <xs:complexType>
@@ -445,10 +445,10 @@
   <xs:element name="hRdD" type="xs:integer"/>
   <xs:element name="vRdE" type="xs:integer"/>
   <xs:element name="hRdE" type="xs:integer"/>
-  <xs:element name="vResdInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="hResdInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="vResdInPixelsPerInch" type="xs:decimal"/>
-  <xs:element name="hResdInPixelsPerInch" type="xs:decimal"/>  
+  <xs:element name="vResdInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="hResdInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="vResdInPixelsPerInch" type="xs:double"/>
+  <xs:element name="hResdInPixelsPerInch" type="xs:double"/>  
   
   <xs:element name="intellectualPropertyBox">
     <xs:complexType>
-- 
2.43.0


From bfa475defa3d25caf74f7b17a75d6eff8b921da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:06 +0000
Subject: [PATCH 29/35] fix: relative wildcards find nothing if the working
 directory name contains brackets

The wildcard expression was made absolute before it was expanded, so special
characters in the name of the current directory were taken for part of the
pattern.
---
 jpylyzer/jpylyzer.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index a5f5727..8925543 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -572,10 +572,6 @@ def findFiles(recurse, paths):
         # Windows (& Linux with backslash prefix) does not expand wildcard '*'
         # Find files in the input path and add to list
         elif WILDCARD in root:
-            # get the absolute path if not given
-            if not os.path.isabs(root):
-                root = os.path.abspath(root)
-
             # Expand wildcard in the input path. Returns a list of files,
             # folders
             filesList = glob.glob(root)
@@ -606,13 +602,9 @@ def findFiles(recurse, paths):
         # RECURSION and WILDCARD IN RECURSION
         # Check if recurse in the input path
         if recurse:
-            # get absolute input path if not given
-            if not os.path.isabs(root):
-                root = os.path.abspath(root)
-
             if WILDCARD in root:
                 pathAndFilePattern = os.path.split(root)
-                path = pathAndFilePattern[0]
+                path = pathAndFilePattern[0] or os.curdir
                 filePattern = pathAndFilePattern[1]
                 filenameAndExtension = os.path.splitext(filePattern)
                 # input path contains wildcard
-- 
2.43.0


From d85c8e094c977650caf1d6a542ffc6b8ca78cfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:14 +0000
Subject: [PATCH 30/35] fix: MIX output takes minutes for images with a long
 comment

The unanchored search for the codec version in the comment field is
quadratic in the length of the comment; anchoring it to the start of a
line gives the same match in linear time.
---
 jpylyzer/mix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 1c70c50..8020776 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -120,7 +120,8 @@ class Mix:
         comment = properties.find('contiguousCodestreamBox/com/comment')
         if comment is not None:
             commentText = comment.text
-            m = re.search(r'(.*)-v([0-9\.]*)', commentText)
+            # Anchored, as the search time is quadratic otherwise
+            m = re.search(r'^(.*)-v([0-9\.]*)', commentText, re.MULTILINE)
             if m:
                 # generate CodecCompliance only if it matches the regex
                 mixCodecCompliance = ET.Element('mix:CodecCompliance')
-- 
2.43.0


From f577ae5415ab5989ec27ab45f1a58065f8f26a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:09 +0000
Subject: [PATCH 31/35] fix: schema rejects output for valid images with an
 empty UUID list

---
 xsd/jpylyzer-v-2-2.xsd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd/jpylyzer-v-2-2.xsd b/xsd/jpylyzer-v-2-2.xsd
index c8bc622..09bbeee 100644
--- a/xsd/jpylyzer-v-2-2.xsd
+++ b/xsd/jpylyzer-v-2-2.xsd
@@ -487,7 +487,7 @@
     <xs:complexType>
       <xs:sequence>
         <xs:element ref="nU"/>
-        <xs:element ref="uuid" maxOccurs="unbounded"/>
+        <xs:element ref="uuid" minOccurs="0" maxOccurs="unbounded"/>
       </xs:sequence>
     </xs:complexType>
   </xs:element>
-- 
2.43.0


From 077c0f8da4790e426cd3fe3f186c32c7ee65addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:11 +0000
Subject: [PATCH 32/35] fix: no warning for an empty file if memory mapping is
 not available

---
 jpylyzer/jpylyzer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 8925543..5d97fa5 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -382,6 +382,11 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
         # Contents of file to memory map object
         if NO_MMAP_LIB:
             fileData = fileToBytes(path)
+            if not fileData:
+                # Same warning as for memory-mapped files
+                msg = "empty file " + path
+                fmmWarnings.append(msg)
+                shared.printWarning(msg)
         else:
             fileData, fmmWarnings = fileToMemoryMap(path)
 
-- 
2.43.0


From 65b339fc07826efe4972d738af7839e2bd3d90be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:32 +0000
Subject: [PATCH 33/35] fix: unsupported --format value ended the program with
 exit status 0

---
 jpylyzer/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/shared.py b/jpylyzer/shared.py
index cff0ca9..6200d44 100644
--- a/jpylyzer/shared.py
+++ b/jpylyzer/shared.py
@@ -29,7 +29,7 @@ def errorExit(msg):
     """Print error message to stderr and exit."""
     msgString = ("Error: " + msg + "\n")
     sys.stderr.write(msgString)
-    sys.exit()
+    sys.exit(1)
 
 
 def consecutive(lst):
-- 
2.43.0


From d2d2240fbdbf317ac951d017b1577a6f1ac36f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:32 +0000
Subject: [PATCH 34/35] fix: output cut short unnoticed in unbuffered mode

In unbuffered mode sys.stdout.buffer is a raw stream whose write() may
accept only part of the data; the rest was lost and the program ended
with exit status 0.
---
 jpylyzer/jpylyzer.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 5d97fa5..ffcbf4f 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,6 +33,7 @@ Contributors:
 
 import sys
 import os
+import io
 import re
 import datetime
 import glob
@@ -671,8 +672,15 @@ def checkFiles(recurse, paths):
     # If there are no valid input files then exit program
     checkNoInput(EXISTING_FILES)
 
+    # In unbuffered mode (e.g. PYTHONUNBUFFERED) stdout is a raw stream, which may
+    # write less than it is given
+    stream = sys.stdout.buffer
+    unbuffered = isinstance(stream, io.RawIOBase)
+    if unbuffered:
+        stream = io.BufferedWriter(stream)
+
     # Set encoding of the terminal to UTF-8
-    out = codecs.getwriter(config.UTF8_ENCODING)(sys.stdout.buffer)
+    out = codecs.getwriter(config.UTF8_ENCODING)(stream)
 
     # Wrap the xml output in <jpylyzer> element
 
@@ -706,9 +714,14 @@ def checkFiles(recurse, paths):
 
         # Write output to stdout
         writeElement(xmlElement, out)
+        if unbuffered:
+            stream.flush()
 
     # Close </results> element
     out.write("</jpylyzer>\n")
+    if unbuffered:
+        # Also flushes the buffer
+        stream.detach()
 
 
 def parseCommandLine():
-- 
2.43.0


From 19971f45b73fb323c4e9101b9ae4b9597a94bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 35/35] fix: pretty-printed output of XML metadata with spaces
 in a namespace

minidom's namespace processing raises an error for namespaces that contain
spaces, which ended the program half-way through its output.
---
 jpylyzer/jpylyzer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index ffcbf4f..7879b03 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -39,7 +39,7 @@ import datetime
 import glob
 import argparse
 import codecs
-from xml.dom import minidom
+from xml.dom import expatbuilder
 from . import config
 from . import etpatch as ET
 from . import boxvalidator as bv
@@ -645,7 +645,10 @@ def writeElement(elt, codec):
 
     if not config.NO_PRETTY_XML_FLAG:
         # Make xml pretty
-        xmlPretty = minidom.parseString(xmlOut).toprettyxml('    ')
+        # (without namespace processing, as minidom cannot deal with namespaces
+        # that contain spaces)
+        xmlPretty = expatbuilder.parseString(
+            xmlOut, namespaces=False).toprettyxml('    ')
 
         # Steps to get rid of xml declaration:
         # String to list
-- 
2.43.0

