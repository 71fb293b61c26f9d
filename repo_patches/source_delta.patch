From 10b3fba72ce7d66ecff488d23dcd128eb131203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:00 +0000
Subject: [PATCH 01/74] fix: header.Write counts only the tables it writes and
 tolerates short head tables

numTables included tables with nil data (which are skipped), giving
zero-filled directory records and wrong offsets; a missing or short "head"
table made the checksum patching panic, as did an empty table map.
---
 header/error.go |  4 ++++
 header/write.go | 12 +++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/header/error.go b/header/error.go
index 65a361f..3ea80ec 100644
--- a/header/error.go
+++ b/header/error.go
@@ -16,6 +16,10 @@
 
 package header
 
+import "errors"
+
+var errNoTables = errors.New("sfnt: no tables to write")
+
 // ErrMissing indicates that a required table is missing from a TrueType or
 // OpenType font file.
 type ErrMissing struct {
diff --git a/header/write.go b/header/write.go
index e46b5e3..4279d85 100644
--- a/header/write.go
+++ b/header/write.go
@@ -29,14 +29,16 @@ import (
 // to write a table with no data.
 // This changes the checksum in the "head" table in place.
 func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, error) {
-	numTables := len(tables)
-
-	tableNames := make([]string, 0, numTables)
+	tableNames := make([]string, 0, len(tables))
 	for name, data := range tables {
 		if data != nil && len(name) == 4 {
 			tableNames = append(tableNames, name)
 		}
 	}
+	numTables := len(tableNames)
+	if numTables == 0 {
+		return 0, errNoTables
+	}
 
 	// sort the table names in the recommended order
 	sort.Slice(tableNames, func(i, j int) bool {
@@ -59,7 +61,7 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	}
 
 	// temporarily clear the checksum in the "head" table
-	if headData, ok := tables["head"]; ok {
+	if headData := tables["head"]; len(headData) >= 12 {
 		clearChecksum(headData)
 	}
 
@@ -90,7 +92,7 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	totalSum += checksum(headerBytes)
 
 	// set the final checksum in the "head" table
-	if headData, ok := tables["head"]; ok {
+	if headData := tables["head"]; len(headData) >= 12 {
 		patchChecksum(headData, totalSum)
 	}
 
-- 
2.43.0


From 0605d4372501b0f0afdd49da09c9fac4195622f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:45 +0000
Subject: [PATCH 02/74] fix: header.Read rejects tables whose end overflows
 uint32

offset+length wrapped around, so that such a table passed both the overlap
check and the end-of-file check.
---
 header/tables.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/header/tables.go b/header/tables.go
index 8ae0c9e..aaedea0 100644
--- a/header/tables.go
+++ b/header/tables.go
@@ -106,6 +106,12 @@ func Read(r io.ReaderAt) (*Info, error) {
 		offset := uint32(buf[8])<<24 | uint32(buf[9])<<16 | uint32(buf[10])<<8 | uint32(buf[11])
 		length := uint32(buf[12])<<24 | uint32(buf[13])<<16 | uint32(buf[14])<<8 | uint32(buf[15])
 
+		if offset+length < offset {
+			return nil, &parser.InvalidFontError{
+				SubSystem: "sfnt/header",
+				Reason:    "table extends beyond EOF",
+			}
+		}
 		if _, exists := h.Toc[name]; exists {
 			return nil, &parser.InvalidFontError{
 				SubSystem: "sfnt/header",
-- 
2.43.0


From e4a37eba81f092eb00433f9ef21c50507d138dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:50 +0000
Subject: [PATCH 03/74] fix: hhea minRightSideBearing and xMaxExtent use the
 left side bearing

---
 hmtx/hmtx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hmtx/hmtx.go b/hmtx/hmtx.go
index ec247c7..4e22ece 100644
--- a/hmtx/hmtx.go
+++ b/hmtx/hmtx.go
@@ -195,7 +195,7 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 			if ext.IsZero() {
 				continue
 			}
-			rsb := info.Widths[i] - ext.URx
+			rsb := info.Widths[i] - (lsbs[i] + ext.URx - ext.LLx)
 			if first || rsb < hhea.MinRightSideBearing {
 				hhea.MinRightSideBearing = rsb
 			}
@@ -205,12 +205,12 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 
 	if info.GlyphExtents != nil {
 		first = true
-		for _, ext := range info.GlyphExtents {
+		for i, ext := range info.GlyphExtents {
 			if ext.IsZero() {
 				continue
 			}
-			if first || ext.URx > hhea.XMaxExtent {
-				hhea.XMaxExtent = ext.URx
+			if xMax := lsbs[i] + ext.URx - ext.LLx; first || xMax > hhea.XMaxExtent {
+				hhea.XMaxExtent = xMax
 			}
 			first = false
 		}
-- 
2.43.0


From d130c94de0edba5eb7f58f7a7b2663705989a47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:26 +0000
Subject: [PATCH 04/74] fix: SimpleGlyph.Decode handles glyphs without contours
 and rejects decreasing contour ends

---
 glyf/simple.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/glyf/simple.go b/glyf/simple.go
index c0dae8e..4ea94cb 100644
--- a/glyf/simple.go
+++ b/glyf/simple.go
@@ -52,11 +52,15 @@ func (glyph *SimpleGlyph) Decode() (*GlyphInfo, error) {
 		return nil, errInvalidGlyphData
 	}
 	endPtsOfContours := make([]uint16, numContours)
+	numPoints := 0
 	for i := 0; i < numContours; i++ {
 		endPtsOfContours[i] = uint16(buf[2*i])<<8 | uint16(buf[2*i+1])
+		if int(endPtsOfContours[i])+1 < numPoints {
+			return nil, errInvalidGlyphData
+		}
+		numPoints = int(endPtsOfContours[i]) + 1
 	}
 	buf = buf[2*numContours:]
-	numPoints := int(endPtsOfContours[numContours-1]) + 1
 
 	instructionLength := int(buf[0])<<8 | int(buf[1])
 	if len(buf) < 2+instructionLength {
-- 
2.43.0


From 73449ef32b9de9eaa9f2ff1b92d771108dd3db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:38 +0000
Subject: [PATCH 05/74] fix: WidthsPDF applies the font matrices of CID-keyed
 fonts

---
 cff/font.go |  5 ++---
 font.go     | 10 +++++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/cff/font.go b/cff/font.go
index 3b4cf17..81c45d1 100644
--- a/cff/font.go
+++ b/cff/font.go
@@ -76,9 +76,8 @@ func (f *Font) Widths() []float64 {
 // in PDF glyph space units (1/1000th of a text space unit).
 func (f *Font) WidthsPDF() []float64 {
 	widths := make([]float64, f.NumGlyphs())
-	q := f.FontMatrix[0] * 1000
-	for gid, glyph := range f.Glyphs {
-		widths[gid] = glyph.Width * q
+	for gid := range f.Glyphs {
+		widths[gid] = f.GlyphWidthPDF(glyph.ID(gid))
 	}
 	return widths
 }
diff --git a/font.go b/font.go
index 95e0adb..33e4a40 100644
--- a/font.go
+++ b/font.go
@@ -279,7 +279,15 @@ func (f *Font) WidthsPDF() []float64 {
 	switch outlines := f.Outlines.(type) {
 	case *cff.Outlines:
 		for gid, g := range outlines.Glyphs {
-			widths[gid] = g.Width * f.FontMatrix[0]
+			fm := f.FontMatrix
+			if outlines.IsCIDKeyed() {
+				fm = outlines.FontMatrices[outlines.FDSelect(glyph.ID(gid))].Mul(f.FontMatrix)
+			}
+			q := fm[0]
+			if math.Abs(fm[3]) > 1e-6 {
+				q -= fm[1] * fm[2] / fm[3]
+			}
+			widths[gid] = g.Width * q
 		}
 		return widths
 	case *glyf.Outlines:
-- 
2.43.0


From 537881ea4c79cfe81208d1e2a52086b62a0fc980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:20 +0000
Subject: [PATCH 06/74] fix: cmap lookups of runes outside the subtable range
 return 0

---
 cmap/format0.go | 2 +-
 cmap/format4.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmap/format0.go b/cmap/format0.go
index 765f596..42fe5d4 100644
--- a/cmap/format0.go
+++ b/cmap/format0.go
@@ -48,7 +48,7 @@ type Format0 struct {
 // Lookup returns the glyph index for the given rune.
 // If the rune is not found, Lookup returns 0 (corresponding to the ".notdef" glyph).
 func (cmap *Format0) Lookup(r rune) glyph.ID {
-	if r > 255 {
+	if r < 0 || r > 255 {
 		return 0
 	}
 	return glyph.ID(cmap.Data[r])
diff --git a/cmap/format4.go b/cmap/format4.go
index 21d841a..12bb5ec 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -96,6 +96,9 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 
 // Lookup implements the Subtable interface.
 func (cmap Format4) Lookup(r rune) glyph.ID {
+	if r < 0 || r > 0xFFFF {
+		return 0
+	}
 	return cmap[uint16(r)]
 }
 
-- 
2.43.0


From 31425a727f0b44e435a60fa40d8954f1cc7e10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:20 +0000
Subject: [PATCH 07/74] fix: cmap format 4 adds idDelta to values from the
 glyphIDArray

---
 cmap/format4.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmap/format4.go b/cmap/format4.go
index 12bb5ec..39a4f86 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -85,6 +85,9 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 			}
 			for idx := start; idx < end; idx++ {
 				c := glyph.ID(glyphIDArray[d+int(idx-start)])
+				if c != 0 {
+					c += glyph.ID(idDelta[k])
+				}
 				if c != 0 {
 					cmap[uint16(code2rune(int(idx)))] = c
 				}
-- 
2.43.0


From c0e62923e84a1fe2358ddaa0442c01716bb54bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:20 +0000
Subject: [PATCH 08/74] fix: cmap format 12 does not truncate glyph ids above
 0xFFFF

---
 cmap/format12.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmap/format12.go b/cmap/format12.go
index 06f727b..cd8b4cc 100644
--- a/cmap/format12.go
+++ b/cmap/format12.go
@@ -58,8 +58,8 @@ func decodeFormat12(data []byte, code2rune func(c int) rune) (Subtable, error) {
 		if (i > 0 && startCharCode <= prevEnd) ||
 			endCharCode < startCharCode ||
 			endCharCode == 0xFFFF_FFFF || // avoid integer overflow in the loop below
-			startGlyphID > 0x10_FFFF ||
-			startGlyphID+(endCharCode-startCharCode) > 0x10_FFFF {
+			startGlyphID > 0xFFFF ||
+			endCharCode-startCharCode > 0xFFFF-startGlyphID {
 			return nil, errMalformedSubtable
 		}
 		prevEnd = endCharCode
@@ -84,7 +84,7 @@ func (cmap Format12) Encode(language uint16) []byte {
 	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
 	segStart := 0
 	for i := 1; i < len(keys); i++ {
-		if keys[i] != keys[i-1]+1 || cmap[keys[i]] != cmap[keys[i-1]]+1 {
+		if keys[i] != keys[i-1]+1 || uint32(cmap[keys[i]]) != uint32(cmap[keys[i-1]])+1 {
 			ss = append(ss, format12segment{
 				StartCharCode: keys[segStart],
 				EndCharCode:   keys[i-1],
-- 
2.43.0


From 1eb03e574d88ce90cf96c965b9339b705c8e8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:20 +0000
Subject: [PATCH 09/74] fix: cmap.Decode checks subtable offsets in short
 tables

---
 cmap/cmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmap/cmap.go b/cmap/cmap.go
index 3a79b3e..3b56e1b 100644
--- a/cmap/cmap.go
+++ b/cmap/cmap.go
@@ -79,7 +79,7 @@ func Decode(data []byte) (Table, error) {
 			uint32(data[9+i*8])<<16 |
 			uint32(data[10+i*8])<<8 |
 			uint32(data[11+i*8])
-		if o < endOfHeader || o > endOfData-minLength {
+		if o < endOfHeader || o > endOfData || endOfData-o < minLength {
 			return nil, errMalformedTable
 		}
 
@@ -93,7 +93,7 @@ func Decode(data []byte) (Table, error) {
 			language = uint16(data[o+4])<<8 | uint16(data[o+5])
 		case 8, 10, 12, 13:
 			checkLength = 12
-			if o > endOfData-checkLength {
+			if endOfData-o < checkLength {
 				return nil, errMalformedTable
 			}
 			length = uint32(data[o+4])<<24 |
-- 
2.43.0


From aa27baeb112b2d63e0e2ac4d4362aabf7bb52e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:38 +0000
Subject: [PATCH 10/74] fix: Mac Roman cmap subtables are decoded using the Mac
 Roman encoding

---
 cmap/cmap.go    |  3 +++
 cmap/format0.go | 14 ++++++++++----
 cmap/format4.go |  8 ++++----
 cmap/format6.go |  4 ++--
 4 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/cmap/cmap.go b/cmap/cmap.go
index 3b56e1b..26ec670 100644
--- a/cmap/cmap.go
+++ b/cmap/cmap.go
@@ -211,6 +211,9 @@ func (ss Table) Get(key Key) (Subtable, error) {
 	}
 
 	macRoman := func(code int) rune {
+		if code > 255 {
+			return -1
+		}
 		return mac.DecodeOne(byte(code))
 	}
 
diff --git a/cmap/format0.go b/cmap/format0.go
index 42fe5d4..33e073b 100644
--- a/cmap/format0.go
+++ b/cmap/format0.go
@@ -26,15 +26,21 @@ import (
 //
 // https://docs.microsoft.com/en-us/typography/opentype/spec/cmap#format-0-byte-encoding-table
 func decodeFormat0(data []byte, code2rune func(c int) rune) (Subtable, error) {
-	if code2rune == nil {
-		code2rune = unicode
-	}
-
 	data = data[6:]
 	if len(data) != 256 {
 		return nil, fmt.Errorf("cmap: format 0: expected 256 bytes, got %d", len(data))
 	}
 
+	if code2rune != nil {
+		res := make(Format4)
+		for code, gid := range data {
+			if r := code2rune(code); gid != 0 && r >= 0 {
+				res[uint16(r)] = glyph.ID(gid)
+			}
+		}
+		return res, nil
+	}
+
 	res := &Format0{}
 	copy(res.Data[:], data)
 
diff --git a/cmap/format4.go b/cmap/format4.go
index 39a4f86..f5bbcaf 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -70,8 +70,8 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 			delta := idDelta[k]
 			for idx := start; idx < end; idx++ {
 				c := glyph.ID(uint16(idx) + delta)
-				if c != 0 {
-					cmap[uint16(code2rune(int(idx)))] = c
+				if r := code2rune(int(idx)); c != 0 && r >= 0 {
+					cmap[uint16(r)] = c
 				}
 			}
 		} else {
@@ -88,8 +88,8 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 				if c != 0 {
 					c += glyph.ID(idDelta[k])
 				}
-				if c != 0 {
-					cmap[uint16(code2rune(int(idx)))] = c
+				if r := code2rune(int(idx)); c != 0 && r >= 0 {
+					cmap[uint16(r)] = c
 				}
 			}
 		}
diff --git a/cmap/format6.go b/cmap/format6.go
index 34b0f2c..05ac2de 100644
--- a/cmap/format6.go
+++ b/cmap/format6.go
@@ -42,8 +42,8 @@ func decodeFormat6(data []byte, code2rune func(c int) rune) (Subtable, error) {
 	res := make(Format4)
 	for i := 0; i < count; i++ {
 		gid := glyph.ID(data[2*i])<<8 | glyph.ID(data[2*i+1])
-		if gid != 0 {
-			res[uint16(code2rune(i+firstCode))] = gid
+		if r := code2rune(i + firstCode); gid != 0 && r >= 0 {
+			res[uint16(r)] = gid
 		}
 	}
 	return res, nil
-- 
2.43.0


From cc5fd3ff18fdd6774ef8997a1b623121313bfc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:15 +0000
Subject: [PATCH 11/74] fix: cmap format 4 refuses mappings whose encoding
 exceeds 65535 bytes

---
 cmap/format4.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmap/format4.go b/cmap/format4.go
index f5bbcaf..d2cfe8a 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -136,10 +136,14 @@ func (cmap Format4) Encode(language uint16) []byte {
 
 	// Encode the data in the binary format
 	segCount := len(StartCode)
+	length := 2 * (8 + 4*segCount + len(GlyphIDArray))
+	if length > 65535 {
+		panic("too many mappings for a format 4 subtable")
+	}
 	sel := bits.Len(uint(segCount))
 	data := &cmapFormat4{
 		Format:        4,
-		Length:        uint16(2 * (8 + 4*segCount + len(GlyphIDArray))),
+		Length:        uint16(length),
 		Language:      language,
 		SegCountX2:    uint16(2 * segCount),
 		SearchRange:   1 << sel,
-- 
2.43.0


From 2ee1c56872789c0c7784af4114b87d8264c77809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:34 +0000
Subject: [PATCH 12/74] fix: lookup lists too large for 16-bit offsets use
 extension subtables of the correct type and for all lookups

---
 opentype/gtab/lookup.go | 69 +++++++++++++++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 9 deletions(-)

diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index bbcbfe0..902fff3 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -314,9 +314,27 @@ findTypeLoop:
 			case *Gsub1_1, *Gsub1_2, *Gsub2_1, *Gsub3_1, *Gsub4_1, *Gsub8_1:
 				extLookupType = gsubExtensionLookupType
 				break findTypeLoop
-			case *Gpos1_1, *Gpos1_2, *Gpos2_1, *Gpos2_2, *Gpos3_1, *Gpos4_1, *Gpos5_1, *Gpos6_1:
+			case *Gpos1_1, *Gpos1_2, Gpos2_1, *Gpos2_1, *Gpos2_2, *Gpos3_1, *Gpos4_1, *Gpos5_1, *Gpos6_1:
 				extLookupType = gposExtensionLookupType
 				break findTypeLoop
+			case *SeqContext1, *SeqContext2, *SeqContext3:
+				switch l.Meta.LookupType {
+				case 5:
+					extLookupType = gsubExtensionLookupType
+					break findTypeLoop
+				case 7:
+					extLookupType = gposExtensionLookupType
+					break findTypeLoop
+				}
+			case *ChainedSeqContext1, *ChainedSeqContext2, *ChainedSeqContext3:
+				switch l.Meta.LookupType {
+				case 6:
+					extLookupType = gsubExtensionLookupType
+					break findTypeLoop
+				case 8:
+					extLookupType = gposExtensionLookupType
+					break findTypeLoop
+				}
 			}
 		}
 	}
@@ -356,16 +374,26 @@ findTypeLoop:
 
 	// If needed, reorder the chunks or introduce extension records.
 	isTooLarge := false
-	var total uint32
+	var total, tablePos uint32
 	for i := range chunks {
 		code := chunks[i].code
-		if code&chunkTypeMask == chunkTable && total > 0xFFFF {
+		if code&chunkTypeMask == chunkTable {
+			tablePos = total
+		}
+		// All offsets stored in the table are 16-bit: the lookup table offsets
+		// are relative to the start of the lookup list, and the subtable
+		// offsets are relative to the start of the lookup table.
+		if code&chunkTypeMask == chunkTable && total > 0xFFFF ||
+			code&chunkTypeMask == chunkSubtable && total-tablePos > 0xFFFF {
 			isTooLarge = true
 			break
 		}
 		total += chunks[i].size
 	}
 	if isTooLarge {
+		if extLookupType == 0 {
+			panic("cannot determine the extension lookup type")
+		}
 		chunks = ll.tryReorder(chunks)
 	}
 
@@ -499,28 +527,51 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 		panic("too much data for lookup list table")
 	}
 
+	// The subtables of the largest lookup may also be out of reach for the
+	// 16-bit subtable offsets.
+	var subtablePos uint32
+	for i := range chunks {
+		code := chunks[i].code
+		if code&chunkTypeMask == chunkHeader || code&chunkTableMask != biggestLookup {
+			continue
+		}
+		if subtablePos > 0xFFFF {
+			numSubtables := len(ll[biggestLookup>>14].Subtables)
+			if 8+10*numSubtables > 0xFFFF {
+				panic("too many subtables")
+			}
+			replace[biggestLookup] = true
+			extra += numSubtables
+			break
+		}
+		subtablePos += chunks[i].size
+	}
+
 	res := make([]layoutChunk, 0, len(chunks)+extra)
 	var moved, ext []layoutChunk
-	for _, chunk := range chunks {
+	for i, chunk := range chunks {
 		code := chunk.code
 		tp := code & chunkTypeMask
 		tCode := code & chunkTableMask
 		switch {
 		case tp == chunkHeader:
 			res = append(res, chunk)
-		case tCode == biggestLookup:
-			moved = append(moved, chunk)
 		case replace[tCode]:
 			sCode := code & chunkSubtableMask
 			if tp == chunkSubtable {
-				res = append(res, layoutChunk{
+				chunk = layoutChunk{
 					code: chunkExtReplace | tCode | sCode,
 					size: 8,
-				})
-				ext = append(ext, chunk)
+				}
+				ext = append(ext, layoutChunk{code: code, size: chunks[i].size})
+			}
+			if tCode == biggestLookup {
+				moved = append(moved, chunk)
 			} else {
 				res = append(res, chunk)
 			}
+		case tCode == biggestLookup:
+			moved = append(moved, chunk)
 		default:
 			res = append(res, chunk)
 		}
-- 
2.43.0


From 02deb0a57d19b8179f81770b1045b4766ebdf174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:25 +0000
Subject: [PATCH 13/74] fix: GSUB and GPOS subtables are refused instead of
 writing 16-bit offsets and counts which overflow

---
 opentype/gtab/gpos.go   | 144 +++++++++++++++++++++++-----------------
 opentype/gtab/gpos4.go  |  19 +++---
 opentype/gtab/gpos6.go  |  19 +++---
 opentype/gtab/gsub.go   |  81 +++++++++++++++-------
 opentype/gtab/lookup.go |  46 +++++++++++++
 opentype/gtab/nested.go | 123 ++++++++++++++++++++++------------
 6 files changed, 287 insertions(+), 145 deletions(-)

diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index dfdf87d..511f0aa 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -50,7 +50,15 @@ func readGposSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 				meta.LookupType, format),
 		}
 	}
-	return reader(p, pos)
+	subtable, err := reader(p, pos)
+	if err != nil {
+		return nil, err
+	}
+	err = checkEncodable(subtable)
+	if err != nil {
+		return nil, err
+	}
+	return subtable, nil
 }
 
 // https://docs.microsoft.com/en-us/typography/opentype/spec/gpos#gsubLookupTypeEnum
@@ -212,12 +220,12 @@ func (l *Gpos1_2) encode() []byte {
 	for _, adj := range l.Adjust {
 		valueFormat |= adj.getFormat()
 	}
-	valueCount := len(l.Adjust)
+	valueCount := checkCount(len(l.Adjust))
 	total := 8
 	if len(l.Adjust) > 0 {
 		total += l.Adjust[0].encodeLen(valueFormat) * valueCount
 	}
-	coverageOffset := total
+	coverageOffset := toOffset16(total)
 	total += l.Cov.EncodeLen()
 
 	buf := make([]byte, 0, total)
@@ -368,79 +376,88 @@ func (l Gpos2_1) CovAndAdjust() (coverage.Table, []map[glyph.ID]*PairAdjust) {
 	return cov, adjust
 }
 
-// encodeLen implements the [Subtable] interface.
-func (l Gpos2_1) encodeLen() int {
+// gpos2_1Layout describes the binary representation of a [Gpos2_1] subtable.
+type gpos2_1Layout struct {
+	cov                        coverage.Table
+	valueFormat1, valueFormat2 uint16
+	pairSets                   [][]byte // without duplicates
+	pairSetIdx                 []int    // indexed by coverage index
+	total                      int      // total size of the subtable
+}
+
+// layout determines the pair sets of the subtable.  First glyphs which have
+// the same adjustments share one pair set.
+func (l Gpos2_1) layout() *gpos2_1Layout {
 	cov, adjust := l.CovAndAdjust()
 
-	total := 10 + 2*len(adjust)
-	total += cov.EncodeLen()
-	var valueFormat1, valueFormat2 uint16
-	for _, adj := range adjust {
-		for _, v := range adj {
-			valueFormat1 |= v.First.getFormat()
-			valueFormat2 |= v.Second.getFormat()
-		}
+	res := &gpos2_1Layout{cov: cov}
+	for _, adj := range l {
+		res.valueFormat1 |= adj.First.getFormat()
+		res.valueFormat2 |= adj.Second.getFormat()
 	}
+
+	res.total = 10 + 2*len(adjust) + cov.EncodeLen()
+	seen := make(map[string]int)
 	for _, adj := range adjust {
-		total += 2 + 2*len(adj)
-		for _, v := range adj {
-			total += v.First.encodeLen(valueFormat1)
-			total += v.Second.encodeLen(valueFormat2)
+		pairValueCount := len(adj)
+		buf := []byte{byte(pairValueCount >> 8), byte(pairValueCount)}
+
+		keys := maps.Keys(adj)
+		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
+		for _, secondGlyph := range keys {
+			buf = append(buf, byte(secondGlyph>>8), byte(secondGlyph))
+			buf = append(buf, adj[secondGlyph].First.encode(res.valueFormat1)...)
+			buf = append(buf, adj[secondGlyph].Second.encode(res.valueFormat2)...)
 		}
+
+		idx, ok := seen[string(buf)]
+		if !ok {
+			idx = len(res.pairSets)
+			seen[string(buf)] = idx
+			res.pairSets = append(res.pairSets, buf)
+			res.total += len(buf)
+		}
+		res.pairSetIdx = append(res.pairSetIdx, idx)
 	}
-	return total
+	return res
+}
+
+// encodeLen implements the [Subtable] interface.
+func (l Gpos2_1) encodeLen() int {
+	return l.layout().total
 }
 
 // encode implements the [Subtable] interface.
 func (l Gpos2_1) encode() []byte {
-	cov, adjust := l.CovAndAdjust()
+	layout := l.layout()
 
-	pairSetCount := len(adjust)
-	total := 10 + 2*pairSetCount
-	coverageOffset := total
-	total += cov.EncodeLen()
-	var valueFormat1, valueFormat2 uint16
-	for _, adj := range adjust {
-		for _, v := range adj {
-			valueFormat1 |= v.First.getFormat()
-			valueFormat2 |= v.Second.getFormat()
-		}
-	}
-	pairSetOffsets := make([]uint16, pairSetCount)
-	for i, adj := range adjust {
-		pairSetOffsets[i] = uint16(total)
-		total += 2 + 2*len(adj)
-		for _, v := range adj {
-			total += v.First.encodeLen(valueFormat1)
-			total += v.Second.encodeLen(valueFormat2)
-		}
+	pairSetCount := checkCount(len(layout.pairSetIdx))
+	pos := 10 + 2*pairSetCount
+	coverageOffset := toOffset16(pos)
+	pos += layout.cov.EncodeLen()
+	pairSetOffsets := make([]uint16, len(layout.pairSets))
+	for i, pairSet := range layout.pairSets {
+		pairSetOffsets[i] = toOffset16(pos)
+		pos += len(pairSet)
 	}
 
-	buf := make([]byte, 0, total)
+	buf := make([]byte, 0, layout.total)
 	buf = append(buf,
 		0, 1, // format
 		byte(coverageOffset>>8), byte(coverageOffset),
-		byte(valueFormat1>>8), byte(valueFormat1),
-		byte(valueFormat2>>8), byte(valueFormat2),
+		byte(layout.valueFormat1>>8), byte(layout.valueFormat1),
+		byte(layout.valueFormat2>>8), byte(layout.valueFormat2),
 		byte(pairSetCount>>8), byte(pairSetCount),
 	)
-	for _, offset := range pairSetOffsets {
+	for _, idx := range layout.pairSetIdx {
+		offset := pairSetOffsets[idx]
 		buf = append(buf, byte(offset>>8), byte(offset))
 	}
 
-	buf = append(buf, cov.Encode()...)
-
-	for _, adj := range adjust {
-		pairValueCount := len(adj)
-		buf = append(buf, byte(pairValueCount>>8), byte(pairValueCount))
+	buf = append(buf, layout.cov.Encode()...)
 
-		keys := maps.Keys(adj)
-		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
-		for _, secondGlyph := range keys {
-			buf = append(buf, byte(secondGlyph>>8), byte(secondGlyph))
-			buf = append(buf, adj[secondGlyph].First.encode(valueFormat1)...)
-			buf = append(buf, adj[secondGlyph].Second.encode(valueFormat2)...)
-		}
+	for _, pairSet := range layout.pairSets {
+		buf = append(buf, pairSet...)
 	}
 
 	return buf
@@ -603,11 +620,13 @@ func (l *Gpos2_2) encode() []byte {
 
 	total := 16
 	total += class1Count * class2Count * recLen
-	coverageOffset := total
+	checkCount(class1Count)
+	checkCount(class2Count)
+	coverageOffset := toOffset16(total)
 	total += l.Cov.ToTable().EncodeLen()
-	classDef1Offset := total
+	classDef1Offset := toOffset16(total)
 	total += l.Class1.AppendLen()
-	classDef2Offset := total
+	classDef2Offset := toOffset16(total)
 	total += l.Class2.AppendLen()
 
 	res := make([]byte, 0, total)
@@ -622,6 +641,9 @@ func (l *Gpos2_2) encode() []byte {
 		byte(class2Count>>8), byte(class2Count),
 	)
 	for _, row := range l.Adjust {
+		if len(row) != class2Count {
+			panic("sfnt/opentype/gtab: inconsistent number of classes in Gpos2_2")
+		}
 		for _, adj := range row {
 			res = append(res, adj.First.encode(valueFormat1)...)
 			res = append(res, adj.Second.encode(valueFormat2)...)
@@ -749,21 +771,21 @@ func (l *Gpos3_1) encodeLen() int {
 // encode implements the [Subtable] interface.
 func (l *Gpos3_1) encode() []byte {
 	total := 6
-	entryExitCount := len(l.Records)
+	entryExitCount := checkCount(len(l.Records))
 	total += 4 * entryExitCount
 	entryOffs := make([]uint16, entryExitCount)
 	exitOffs := make([]uint16, entryExitCount)
 	for i, rec := range l.Records {
 		if !rec.Entry.IsEmpty() {
-			entryOffs[i] = uint16(total)
+			entryOffs[i] = toOffset16(total)
 			total += 6
 		}
 		if !rec.Exit.IsEmpty() {
-			exitOffs[i] = uint16(total)
+			exitOffs[i] = toOffset16(total)
 			total += 6
 		}
 	}
-	coverageOffset := total
+	coverageOffset := toOffset16(total)
 	total += l.Cov.EncodeLen()
 
 	res := make([]byte, 0, total)
diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index 87d534a..868dab7 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -196,20 +196,23 @@ func (l *Gpos4_1) encodeLen() int {
 
 // encode implements the [Subtable] interface.
 func (l *Gpos4_1) encode() []byte {
-	markCount := len(l.MarkArray)
-	markClassCount := l.countMarkClasses()
-	baseCount := len(l.BaseArray)
+	markCount := checkCount(len(l.MarkArray))
+	markClassCount := checkCount(l.countMarkClasses())
+	baseCount := checkCount(len(l.BaseArray))
 
 	total := 12
 	markCoverageOffset := total
 	total += l.MarkCov.EncodeLen()
-	baseCoverageOffset := total
+	baseCoverageOffset := toOffset16(total)
 	total += l.BaseCov.EncodeLen()
-	markArrayOffset := total
+	markArrayOffset := toOffset16(total)
 	total += 2 + (4+6)*markCount
-	baseArrayOffset := total
+	baseArrayOffset := toOffset16(total)
 	total += 2
 	for _, row := range l.BaseArray {
+		if len(row) != markClassCount {
+			panic("sfnt/opentype/gtab: inconsistent number of mark classes")
+		}
 		for _, rec := range row {
 			total += 2
 			if !rec.IsEmpty() {
@@ -238,7 +241,7 @@ func (l *Gpos4_1) encode() []byte {
 	for _, rec := range l.MarkArray {
 		res = append(res,
 			byte(rec.Class>>8), byte(rec.Class),
-			byte(offs>>8), byte(offs),
+			byte(toOffset16(offs)>>8), byte(offs),
 		)
 		offs += 6
 	}
@@ -257,7 +260,7 @@ func (l *Gpos4_1) encode() []byte {
 				continue
 			}
 			res = append(res,
-				byte(offs>>8), byte(offs),
+				byte(toOffset16(offs)>>8), byte(offs),
 			)
 			offs += 6
 		}
diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index 29d78da..592b169 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -194,20 +194,23 @@ func (l *Gpos6_1) encodeLen() int {
 
 // encode implements the [Subtable] interface.
 func (l *Gpos6_1) encode() []byte {
-	mark1Count := len(l.Mark1Array)
-	markClassCount := l.countMarkClasses()
-	mark2Count := len(l.Mark2Array)
+	mark1Count := checkCount(len(l.Mark1Array))
+	markClassCount := checkCount(l.countMarkClasses())
+	mark2Count := checkCount(len(l.Mark2Array))
 
 	total := 12
 	mark1CoverageOffset := total
 	total += l.Mark1Cov.EncodeLen()
-	mark2CoverageOffset := total
+	mark2CoverageOffset := toOffset16(total)
 	total += l.Mark2Cov.EncodeLen()
-	mark1ArrayOffset := total
+	mark1ArrayOffset := toOffset16(total)
 	total += 2 + (4+6)*mark1Count
-	mark2ArrayOffset := total
+	mark2ArrayOffset := toOffset16(total)
 	total += 2
 	for _, row := range l.Mark2Array {
+		if len(row) != markClassCount {
+			panic("sfnt/opentype/gtab: inconsistent number of mark classes")
+		}
 		for _, rec := range row {
 			total += 2
 			if !rec.IsEmpty() {
@@ -236,7 +239,7 @@ func (l *Gpos6_1) encode() []byte {
 	for _, rec := range l.Mark1Array {
 		res = append(res,
 			byte(rec.Class>>8), byte(rec.Class),
-			byte(offs>>8), byte(offs),
+			byte(toOffset16(offs)>>8), byte(offs),
 		)
 		offs += 6
 	}
@@ -255,7 +258,7 @@ func (l *Gpos6_1) encode() []byte {
 				continue
 			}
 			res = append(res,
-				byte(offs>>8), byte(offs),
+				byte(toOffset16(offs)>>8), byte(offs),
 			)
 			offs += 6
 		}
diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 4b372a9..395a760 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -46,7 +46,15 @@ func readGsubSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 				meta.LookupType, format),
 		}
 	}
-	return reader(p, pos)
+	subtable, err := reader(p, pos)
+	if err != nil {
+		return nil, err
+	}
+	err = checkEncodable(subtable)
+	if err != nil {
+		return nil, err
+	}
+	return subtable, nil
 }
 
 var gsubReaders = map[uint16]func(p *parser.Parser, pos int64) (Subtable, error){
@@ -185,8 +193,8 @@ func (l *Gsub1_2) encodeLen() int {
 
 // encode implements the [Subtable] interface.
 func (l *Gsub1_2) encode() []byte {
-	n := len(l.SubstituteGlyphIDs)
-	covOffs := 6 + 2*n
+	n := checkCount(len(l.SubstituteGlyphIDs))
+	covOffs := int(toOffset16(6 + 2*n))
 
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
@@ -239,7 +247,11 @@ func readGsub2_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 
 	sequenceCount := len(sequenceOffsets)
 	repl := make([][]glyph.ID, sequenceCount)
+	total := 6 + 2*sequenceCount
 	for i := 0; i < sequenceCount; i++ {
+		if total > 0xFFFF {
+			return nil, errSubtableTooLarge
+		}
 		err := p.SeekPos(subtablePos + int64(sequenceOffsets[i]))
 		if err != nil {
 			return nil, err
@@ -248,6 +260,7 @@ func readGsub2_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		if err != nil {
 			return nil, err
 		}
+		total += 2 + 2*len(repl[i])
 	}
 
 	res := &Gsub2_1{
@@ -298,14 +311,16 @@ func (l *Gsub2_1) encodeLen() int {
 
 // encode implements the [Subtable] interface.
 func (l *Gsub2_1) encode() []byte {
-	sequenceCount := len(l.Repl)
+	sequenceCount := checkCount(len(l.Repl))
 	covOffs := 6 + 2*sequenceCount
 
 	sequenceOffsets := make([]uint16, sequenceCount)
 	for i, repl := range l.Repl {
-		sequenceOffsets[i] = uint16(covOffs)
+		sequenceOffsets[i] = toOffset16(covOffs)
+		checkCount(len(repl))
 		covOffs += 2 + 2*len(repl)
 	}
+	toOffset16(covOffs)
 
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
@@ -365,7 +380,11 @@ func readGsub3_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 
 	alternateSetCount := len(alternateSetOffsets)
 	alt := make([][]glyph.ID, alternateSetCount)
+	total := 6 + 2*alternateSetCount
 	for i := 0; i < alternateSetCount; i++ {
+		if total > 0xFFFF {
+			return nil, errSubtableTooLarge
+		}
 		err := p.SeekPos(subtablePos + int64(alternateSetOffsets[i]))
 		if err != nil {
 			return nil, err
@@ -382,6 +401,7 @@ func readGsub3_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			}
 			alt[i][j] = glyph.ID(gid)
 		}
+		total += 2 + 2*len(alt[i])
 	}
 
 	res := &Gsub3_1{
@@ -422,14 +442,16 @@ func (l *Gsub3_1) encodeLen() int {
 
 // encode implements the [Subtable] interface.
 func (l *Gsub3_1) encode() []byte {
-	alternateSetCount := len(l.Alternates)
+	alternateSetCount := checkCount(len(l.Alternates))
 	covOffs := 6 + 2*alternateSetCount
 
 	alternateSetOffsets := make([]uint16, alternateSetCount)
 	for i, repl := range l.Alternates {
-		alternateSetOffsets[i] = uint16(covOffs)
+		alternateSetOffsets[i] = toOffset16(covOffs)
+		checkCount(len(repl))
 		covOffs += 2 + 2*len(repl)
 	}
+	toOffset16(covOffs)
 
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
@@ -502,6 +524,10 @@ func readGsub4_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		ligatureSetOffsets = ligatureSetOffsets[:len(cov)]
 	}
 
+	// When encoding the subtable without overlapping data, `total` will become
+	// the coverage offset.
+	total := 6 + 2*len(ligatureSetOffsets)
+
 	repl := make([][]Ligature, len(ligatureSetOffsets))
 	for i, ligatureSetOffset := range ligatureSetOffsets {
 		ligatureSetPos := subtablePos + int64(ligatureSetOffset)
@@ -514,6 +540,7 @@ func readGsub4_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			return nil, err
 		}
 
+		total += 2 + 6*len(ligatureOffsets)
 		repl[i] = make([]Ligature, len(ligatureOffsets))
 		for j, ligatureOffset := range ligatureOffsets {
 			err = p.SeekPos(ligatureSetPos + int64(ligatureOffset))
@@ -528,6 +555,19 @@ func readGsub4_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			if err != nil {
 				return nil, err
 			}
+			if componentCount == 0 {
+				return nil, &parser.InvalidFontError{
+					SubSystem: "sfnt/opentype/gtab",
+					Reason:    "invalid component count in GSUB 4.1",
+				}
+			}
+			total += 2 * int(componentCount-1)
+			if total > 0xFFFF {
+				return nil, &parser.InvalidFontError{
+					SubSystem: "sfnt/opentype/gtab",
+					Reason:    "GSUB 4.1 too large",
+				}
+			}
 			componentGlyphIDs := make([]glyph.ID, componentCount-1)
 			for k := range componentGlyphIDs {
 				gid, err := p.ReadUint16()
@@ -542,15 +582,6 @@ func readGsub4_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		}
 	}
 
-	total := 6 + 2*len(repl)
-	for _, replI := range repl {
-		total += 2 + 2*len(replI)
-		for _, lig := range replI {
-			total += 4 + 2*len(lig.In)
-		}
-	}
-	// Now total is the coverage offset when encoding the subtable without
-	// overlapping data.
 	if total > 0xFFFF {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/opentype/gtab",
@@ -640,7 +671,7 @@ func (l *Gsub4_1) encodeLen() int {
 
 // encode implements the [Subtable] interface.
 func (l *Gsub4_1) encode() []byte {
-	ligatureSetCount := len(l.Repl)
+	ligatureSetCount := checkCount(len(l.Repl))
 	total := 6 + 2*ligatureSetCount
 	ligatureSetOffsets := make([]uint16, ligatureSetCount)
 	for i, repl := range l.Repl {
@@ -667,7 +698,7 @@ func (l *Gsub4_1) encode() []byte {
 		buf = append(buf, byte(offs>>8), byte(offs))
 	}
 	for _, repl := range l.Repl {
-		ligatureCount := len(repl)
+		ligatureCount := checkCount(len(repl))
 		buf = append(buf, byte(ligatureCount>>8), byte(ligatureCount))
 		pos := 2 + 2*ligatureCount
 		for _, lig := range repl {
@@ -675,7 +706,7 @@ func (l *Gsub4_1) encode() []byte {
 			pos += 4 + 2*len(lig.In)
 		}
 		for _, lig := range repl {
-			componentCount := len(lig.In) + 1
+			componentCount := checkCount(len(lig.In) + 1)
 			buf = append(buf,
 				byte(lig.Out>>8), byte(lig.Out),
 				byte(componentCount>>8), byte(componentCount),
@@ -813,24 +844,24 @@ func (l *Gsub8_1) encodeLen() int {
 
 // encode implements the [Subtable] interface.
 func (l *Gsub8_1) encode() []byte {
-	backtrackGlyphCount := len(l.Backtrack)
-	lookaheadGlyphCount := len(l.Lookahead)
-	glyphCount := len(l.SubstituteGlyphIDs)
+	backtrackGlyphCount := checkCount(len(l.Backtrack))
+	lookaheadGlyphCount := checkCount(len(l.Lookahead))
+	glyphCount := checkCount(len(l.SubstituteGlyphIDs))
 
 	total := 10
 	total += 2 * backtrackGlyphCount
 	total += 2 * lookaheadGlyphCount
 	total += 2 * glyphCount
-	coverageOffset := total
+	coverageOffset := toOffset16(total)
 	total += l.Input.EncodeLen()
 	backtrackCoverageOffsets := make([]uint16, backtrackGlyphCount)
 	for i, cov := range l.Backtrack {
-		backtrackCoverageOffsets[i] = uint16(total)
+		backtrackCoverageOffsets[i] = toOffset16(total)
 		total += cov.EncodeLen()
 	}
 	lookaheadCoverageOffsets := make([]uint16, lookaheadGlyphCount)
 	for i, cov := range l.Lookahead {
-		lookaheadCoverageOffsets[i] = uint16(total)
+		lookaheadCoverageOffsets[i] = toOffset16(total)
 		total += cov.EncodeLen()
 	}
 
diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index 902fff3..7f7561e 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -17,6 +17,7 @@
 package gtab
 
 import (
+	"errors"
 	"sort"
 
 	"golang.org/x/text/language"
@@ -282,6 +283,51 @@ func isExtension(ss []Subtable) (uint16, bool) {
 	return l.ExtensionLookupType, true
 }
 
+// errOffsetOverflow is the panic value used by the encode methods, if a
+// subtable cannot be represented using 16-bit offsets.
+var errOffsetOverflow = errors.New("sfnt/opentype/gtab: subtable too large")
+
+// toOffset16 converts a position to a 16-bit offset.
+// The function panics if the value is too large.
+func toOffset16(pos int) uint16 {
+	if pos > 0xFFFF {
+		panic(errOffsetOverflow)
+	}
+	return uint16(pos)
+}
+
+// checkCount panics if n cannot be stored in a 16-bit count field.
+func checkCount(n int) int {
+	if n > 0xFFFF {
+		panic(errOffsetOverflow)
+	}
+	return n
+}
+
+// checkEncodable returns an error if a subtable which has been read from a
+// font file cannot be encoded again.  This can happen, if the original data
+// relied on sharing parts of the subtable.
+func checkEncodable(subtable Subtable) (err error) {
+	if subtable.encodeLen() <= 0xFFFF {
+		return nil
+	}
+
+	defer func() {
+		if r := recover(); r == errOffsetOverflow {
+			err = errSubtableTooLarge
+		} else if r != nil {
+			panic(r)
+		}
+	}()
+	subtable.encode()
+	return nil
+}
+
+var errSubtableTooLarge = &parser.InvalidFontError{
+	SubSystem: "sfnt/opentype/gtab",
+	Reason:    "subtable too large",
+}
+
 type chunkCode uint32
 
 const (
diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index 8a6ab08..43b4f24 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -81,6 +81,7 @@ func readSeqContext1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		Cov:   cov,
 		Rules: make([][]*SeqRule, len(seqRuleSetOffsets)),
 	}
+	total := 6 + 2*len(seqRuleSetOffsets)
 
 	for i, seqRuleSetOffset := range seqRuleSetOffsets {
 		if seqRuleSetOffset == 0 {
@@ -97,6 +98,7 @@ func readSeqContext1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		if err != nil {
 			return nil, err
 		}
+		total += 2 + 6*len(seqRuleOffsets)
 		res.Rules[i] = make([]*SeqRule, len(seqRuleOffsets))
 		for j, seqRuleOffset := range seqRuleOffsets {
 			err = p.SeekPos(base + int64(seqRuleOffset))
@@ -116,6 +118,10 @@ func readSeqContext1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 				}
 			}
 			seqLookupCount := int(buf[2])<<8 | int(buf[3])
+			total += 2*(glyphCount-1) + 4*seqLookupCount
+			if total > 0xFFFF {
+				return nil, errSubtableTooLarge
+			}
 			inputSequence := make([]glyph.ID, glyphCount-1)
 			for k := range inputSequence {
 				xk, err := p.ReadUint16()
@@ -204,7 +210,7 @@ func (l *SeqContext1) encodeLen() int {
 
 // encode implements the [Subtable] interface.
 func (l *SeqContext1) encode() []byte {
-	seqRuleSetCount := len(l.Rules)
+	seqRuleSetCount := checkCount(len(l.Rules))
 
 	total := 6 + 2*seqRuleSetCount
 	seqRuleSetOffsets := make([]uint16, seqRuleSetCount)
@@ -212,13 +218,13 @@ func (l *SeqContext1) encode() []byte {
 		if rules == nil {
 			continue
 		}
-		seqRuleSetOffsets[i] = uint16(total)
+		seqRuleSetOffsets[i] = toOffset16(total)
 		total += 2 + 2*len(rules)
 		for _, rule := range rules {
 			total += 4 + 2*len(rule.Input) + 4*len(rule.Actions)
 		}
 	}
-	coverageOffset := total
+	coverageOffset := toOffset16(total)
 	total += l.Cov.EncodeLen()
 
 	buf := make([]byte, 0, total)
@@ -234,20 +240,20 @@ func (l *SeqContext1) encode() []byte {
 		if rules == nil {
 			continue
 		}
-		seqRuleCount := len(rules)
+		seqRuleCount := checkCount(len(rules))
 		buf = append(buf,
 			byte(seqRuleCount>>8), byte(seqRuleCount),
 		)
 		pos := 2 + 2*seqRuleCount
 		for _, rule := range rules {
 			buf = append(buf,
-				byte(pos>>8), byte(pos),
+				byte(toOffset16(pos)>>8), byte(pos),
 			)
 			pos += 4 + 2*len(rule.Input) + 4*len(rule.Actions)
 		}
 		for _, rule := range rules {
-			glyphCount := len(rule.Input) + 1
-			seqLookupCount := len(rule.Actions)
+			glyphCount := checkCount(len(rule.Input) + 1)
+			seqLookupCount := checkCount(len(rule.Actions))
 			buf = append(buf,
 				byte(glyphCount>>8), byte(glyphCount),
 				byte(seqLookupCount>>8), byte(seqLookupCount),
@@ -332,7 +338,7 @@ func readSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			return nil, err
 		}
 		res.Rules[i] = make([]*ClassSeqRule, len(seqRuleOffsets))
-		total += 2 + 2*len(res.Rules[i])
+		total += 2 + 6*len(res.Rules[i])
 		for j, seqRuleOffset := range seqRuleOffsets {
 			err = p.SeekPos(base + int64(seqRuleOffset))
 			if err != nil {
@@ -350,6 +356,10 @@ func readSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 				}
 			}
 			seqLookupCount := int(buf[2])<<8 | int(buf[3])
+			total += 2*(glyphCount-1) + 4*seqLookupCount
+			if total > 0xFFFF {
+				return nil, errSubtableTooLarge
+			}
 			inputSequence := make([]uint16, glyphCount-1)
 			for k := range inputSequence {
 				xk, err := p.ReadUint16()
@@ -366,7 +376,6 @@ func readSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 				Input:   inputSequence,
 				Actions: actions,
 			}
-			total += 4 + 2*len(inputSequence) + 4*len(actions)
 		}
 	}
 	total += cov.EncodeLen()
@@ -449,14 +458,14 @@ func (l *SeqContext2) encodeLen() int {
 
 // encode implements the [Subtable] interface.
 func (l *SeqContext2) encode() []byte {
-	seqRuleSetCount := len(l.Rules)
+	seqRuleSetCount := checkCount(len(l.Rules))
 	total := 8 + 2*seqRuleSetCount
 	seqRuleSetOffsets := make([]uint16, seqRuleSetCount)
 	for i, rules := range l.Rules {
 		if rules == nil {
 			continue
 		}
-		seqRuleSetOffsets[i] = uint16(total)
+		seqRuleSetOffsets[i] = toOffset16(total)
 		total += 2 + 2*len(rules)
 		for _, rule := range rules {
 			total += 4 + 2*len(rule.Input) + 4*len(rule.Actions)
@@ -468,7 +477,7 @@ func (l *SeqContext2) encode() []byte {
 	total += l.Input.AppendLen()
 
 	if classDefOffset > 0xFFFF {
-		panic("classDefOffset too large")
+		panic(errOffsetOverflow)
 	}
 
 	buf := make([]byte, 0, total)
@@ -485,20 +494,20 @@ func (l *SeqContext2) encode() []byte {
 		if rules == nil {
 			continue
 		}
-		seqRuleCount := len(rules)
+		seqRuleCount := checkCount(len(rules))
 		buf = append(buf,
 			byte(seqRuleCount>>8), byte(seqRuleCount),
 		)
 		pos := 2 + 2*seqRuleCount
 		for _, rule := range rules {
 			buf = append(buf,
-				byte(pos>>8), byte(pos),
+				byte(toOffset16(pos)>>8), byte(pos),
 			)
 			pos += 4 + 2*len(rule.Input) + 4*len(rule.Actions)
 		}
 		for _, rule := range rules {
-			glyphCount := len(rule.Input) + 1
-			seqLookupCount := len(rule.Actions)
+			glyphCount := checkCount(len(rule.Input) + 1)
+			seqLookupCount := checkCount(len(rule.Actions))
 			buf = append(buf,
 				byte(glyphCount>>8), byte(glyphCount),
 				byte(seqLookupCount>>8), byte(seqLookupCount),
@@ -619,13 +628,13 @@ func (l *SeqContext3) encodeLen() int {
 
 // encode implements the [Subtable] interface.
 func (l *SeqContext3) encode() []byte {
-	glyphCount := len(l.Input)
-	seqLookupCount := len(l.Actions)
+	glyphCount := checkCount(len(l.Input))
+	seqLookupCount := checkCount(len(l.Actions))
 
 	total := 6 + 2*len(l.Input) + 4*len(l.Actions)
 	coverageOffsets := make([]uint16, glyphCount)
 	for i, cov := range l.Input {
-		coverageOffsets[i] = uint16(total)
+		coverageOffsets[i] = toOffset16(total)
 		total += cov.ToTable().EncodeLen()
 	}
 
@@ -730,6 +739,12 @@ func readChainedSeqContext1(p *parser.Parser, subtablePos int64) (Subtable, erro
 			if err != nil {
 				return nil, err
 			}
+			if inputGlyphCount == 0 {
+				return nil, &parser.InvalidFontError{
+					SubSystem: "sfnt/opentype/gtab",
+					Reason:    "invalid glyph count in ChainedSeqContext1",
+				}
+			}
 			inputSequence := make([]glyph.ID, inputGlyphCount-1)
 			for k := range inputSequence {
 				val, err := p.ReadUint16()
@@ -874,16 +889,16 @@ func (l *ChainedSeqContext1) encodeLen() int {
 
 // encode implements the [Subtable] interface.
 func (l *ChainedSeqContext1) encode() []byte {
-	chainedSeqRuleSetCount := len(l.Rules)
+	chainedSeqRuleSetCount := checkCount(len(l.Rules))
 	total := 6 + 2*len(l.Rules)
-	coverageOffset := total
+	coverageOffset := toOffset16(total)
 	total += l.Cov.EncodeLen()
 	chainedSeqRuleSetOffsets := make([]uint16, chainedSeqRuleSetCount)
 	for i, rules := range l.Rules {
 		if rules == nil {
 			continue
 		}
-		chainedSeqRuleSetOffsets[i] = uint16(total)
+		chainedSeqRuleSetOffsets[i] = toOffset16(total)
 		total += 2 + 2*len(rules)
 		for _, rule := range rules {
 			total += 2 + 2*len(rule.Backtrack)
@@ -909,7 +924,7 @@ func (l *ChainedSeqContext1) encode() []byte {
 		if rules == nil {
 			continue
 		}
-		chainedSeqRuleCount := len(rules)
+		chainedSeqRuleCount := checkCount(len(rules))
 		buf = append(buf,
 			byte(chainedSeqRuleCount>>8), byte(chainedSeqRuleCount),
 		)
@@ -917,7 +932,7 @@ func (l *ChainedSeqContext1) encode() []byte {
 		pos := 2 + 2*chainedSeqRuleCount
 		for _, rule := range rules {
 			buf = append(buf,
-				byte(pos>>8), byte(pos),
+				byte(toOffset16(pos)>>8), byte(pos),
 			)
 			pos += 2 + 2*len(rule.Backtrack)
 			pos += 2 + 2*len(rule.Input)
@@ -925,28 +940,28 @@ func (l *ChainedSeqContext1) encode() []byte {
 			pos += 2 + 4*len(rule.Actions)
 		}
 		for _, rule := range rules {
-			backtrackGlyphCount := len(rule.Backtrack)
+			backtrackGlyphCount := checkCount(len(rule.Backtrack))
 			buf = append(buf,
 				byte(backtrackGlyphCount>>8), byte(backtrackGlyphCount),
 			)
 			for _, gid := range rule.Backtrack {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
-			inputGlyphCount := len(rule.Input) + 1
+			inputGlyphCount := checkCount(len(rule.Input) + 1)
 			buf = append(buf,
 				byte(inputGlyphCount>>8), byte(inputGlyphCount),
 			)
 			for _, gid := range rule.Input {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
-			lookaheadGlyphCount := len(rule.Lookahead)
+			lookaheadGlyphCount := checkCount(len(rule.Lookahead))
 			buf = append(buf,
 				byte(lookaheadGlyphCount>>8), byte(lookaheadGlyphCount),
 			)
 			for _, gid := range rule.Lookahead {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
-			seqLookupCount := len(rule.Actions)
+			seqLookupCount := checkCount(len(rule.Actions))
 			buf = append(buf,
 				byte(seqLookupCount>>8), byte(seqLookupCount),
 			)
@@ -1023,6 +1038,8 @@ func readChainedSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, erro
 		chainedClassSeqRuleSetOffsets = chainedClassSeqRuleSetOffsets[:numClasses]
 	}
 
+	totalRules := 12 + 2*len(chainedClassSeqRuleSetOffsets)
+
 	rules := make([][]*ChainedClassSeqRule, len(chainedClassSeqRuleSetOffsets))
 	for i, chainedClassSeqRuleSetOffset := range chainedClassSeqRuleSetOffsets {
 		if chainedClassSeqRuleSetOffset == 0 {
@@ -1040,6 +1057,11 @@ func readChainedSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, erro
 			return nil, err
 		}
 
+		if totalRules > 0xFFFF {
+			return nil, errSubtableTooLarge
+		}
+		ruleSetSize := 2 + 2*len(chainedClassSeqRuleOffsets)
+
 		rules[i] = make([]*ChainedClassSeqRule, len(chainedClassSeqRuleOffsets))
 		for j, chainedClassSeqRuleOffset := range chainedClassSeqRuleOffsets {
 			err = p.SeekPos(base + int64(chainedClassSeqRuleOffset))
@@ -1055,6 +1077,12 @@ func readChainedSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, erro
 			if err != nil {
 				return nil, err
 			}
+			if inputGlyphCount == 0 {
+				return nil, &parser.InvalidFontError{
+					SubSystem: "sfnt/opentype/gtab",
+					Reason:    "invalid glyph count in ChainedSeqContext2",
+				}
+			}
 			inputSequence := make([]uint16, inputGlyphCount-1)
 			for k := range inputSequence {
 				inputSequence[k], err = p.ReadUint16()
@@ -1075,6 +1103,14 @@ func readChainedSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, erro
 				return nil, err
 			}
 
+			if ruleSetSize > 0xFFFF {
+				return nil, errSubtableTooLarge
+			}
+			ruleSetSize += 2 + 2*len(backtrackSequence)
+			ruleSetSize += 2 + 2*len(inputSequence)
+			ruleSetSize += 2 + 2*len(lookaheadSequence)
+			ruleSetSize += 2 + 4*len(actions)
+
 			rules[i][j] = &ChainedClassSeqRule{
 				Backtrack: backtrackSequence,
 				Input:     inputSequence,
@@ -1082,6 +1118,7 @@ func readChainedSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, erro
 				Actions:   actions,
 			}
 		}
+		totalRules += ruleSetSize
 	}
 
 	total := 12 + 2*len(rules)
@@ -1228,7 +1265,7 @@ func (l *ChainedSeqContext2) encodeLen() int {
 
 // encode implements the [Subtable] interface.
 func (l *ChainedSeqContext2) encode() []byte {
-	chainedSeqRuleSetCount := len(l.Rules)
+	chainedSeqRuleSetCount := checkCount(len(l.Rules))
 	total := 12 + 2*len(l.Rules)
 	coverageOffset := total
 	total += l.Cov.EncodeLen()
@@ -1244,7 +1281,7 @@ func (l *ChainedSeqContext2) encode() []byte {
 			continue
 		}
 		if total > 0xFFFF {
-			panic("ChainedSeqContext2 too large")
+			panic(errOffsetOverflow)
 		}
 		chainedSeqRuleSetOffsets[i] = uint16(total)
 		total += 2 + 2*len(rr)
@@ -1278,7 +1315,7 @@ func (l *ChainedSeqContext2) encode() []byte {
 		if rr == nil {
 			continue
 		}
-		chainedSeqRuleCount := len(rr)
+		chainedSeqRuleCount := checkCount(len(rr))
 		buf = append(buf,
 			byte(chainedSeqRuleCount>>8), byte(chainedSeqRuleCount),
 		)
@@ -1286,7 +1323,7 @@ func (l *ChainedSeqContext2) encode() []byte {
 		pos := 2 + 2*chainedSeqRuleCount
 		for _, rule := range rr {
 			if pos > 0xFFFF {
-				panic("ChainedSeqContext2 too large")
+				panic(errOffsetOverflow)
 			}
 			buf = append(buf,
 				byte(pos>>8), byte(pos),
@@ -1297,28 +1334,28 @@ func (l *ChainedSeqContext2) encode() []byte {
 			pos += 2 + 4*len(rule.Actions)
 		}
 		for _, rule := range rr {
-			backtrackGlyphCount := len(rule.Backtrack)
+			backtrackGlyphCount := checkCount(len(rule.Backtrack))
 			buf = append(buf,
 				byte(backtrackGlyphCount>>8), byte(backtrackGlyphCount),
 			)
 			for _, gid := range rule.Backtrack {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
-			inputGlyphCount := len(rule.Input) + 1
+			inputGlyphCount := checkCount(len(rule.Input) + 1)
 			buf = append(buf,
 				byte(inputGlyphCount>>8), byte(inputGlyphCount),
 			)
 			for _, gid := range rule.Input {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
-			lookaheadGlyphCount := len(rule.Lookahead)
+			lookaheadGlyphCount := checkCount(len(rule.Lookahead))
 			buf = append(buf,
 				byte(lookaheadGlyphCount>>8), byte(lookaheadGlyphCount),
 			)
 			for _, gid := range rule.Lookahead {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
-			seqLookupCount := len(rule.Actions)
+			seqLookupCount := checkCount(len(rule.Actions))
 			buf = append(buf,
 				byte(seqLookupCount>>8), byte(seqLookupCount),
 			)
@@ -1486,10 +1523,10 @@ func (l *ChainedSeqContext3) encodeLen() int {
 
 // encode implements the [Subtable] interface.
 func (l *ChainedSeqContext3) encode() []byte {
-	backtrackGlyphCount := len(l.Backtrack)
-	inputGlyphCount := len(l.Input)
-	lookaheadGlyphCount := len(l.Lookahead)
-	seqLookupCount := len(l.Actions)
+	backtrackGlyphCount := checkCount(len(l.Backtrack))
+	inputGlyphCount := checkCount(len(l.Input))
+	lookaheadGlyphCount := checkCount(len(l.Lookahead))
+	seqLookupCount := checkCount(len(l.Actions))
 
 	total := 10
 	total += 2 * len(l.Backtrack)
@@ -1498,19 +1535,19 @@ func (l *ChainedSeqContext3) encode() []byte {
 	total += 4 * len(l.Actions)
 	backtrackCoverageOffsets := make([]uint16, backtrackGlyphCount)
 	for i, set := range l.Backtrack {
-		backtrackCoverageOffsets[i] = uint16(total)
+		backtrackCoverageOffsets[i] = toOffset16(total)
 		cov := set.ToTable()
 		total += cov.EncodeLen()
 	}
 	inputCoverageOffsets := make([]uint16, inputGlyphCount)
 	for i, set := range l.Input {
-		inputCoverageOffsets[i] = uint16(total)
+		inputCoverageOffsets[i] = toOffset16(total)
 		cov := set.ToTable()
 		total += cov.EncodeLen()
 	}
 	lookaheadCoverageOffsets := make([]uint16, lookaheadGlyphCount)
 	for i, set := range l.Lookahead {
-		lookaheadCoverageOffsets[i] = uint16(total)
+		lookaheadCoverageOffsets[i] = toOffset16(total)
 		cov := set.ToTable()
 		total += cov.EncodeLen()
 	}
-- 
2.43.0


From 6b39e97f18a45eab046c9b0e8d055070551d668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:27 +0000
Subject: [PATCH 14/74] fix: GPOS 5.1 subtables are read correctly and can be
 written

---
 opentype/gtab/gpos.go  |   2 +-
 opentype/gtab/gpos5.go | 161 ++++++++++++++++++++++++++++++++++++++---
 2 files changed, 152 insertions(+), 11 deletions(-)

diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index 511f0aa..a052ed4 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -399,7 +399,7 @@ func (l Gpos2_1) layout() *gpos2_1Layout {
 	res.total = 10 + 2*len(adjust) + cov.EncodeLen()
 	seen := make(map[string]int)
 	for _, adj := range adjust {
-		pairValueCount := len(adj)
+		pairValueCount := checkCount(len(adj))
 		buf := []byte{byte(pairValueCount >> 8), byte(pairValueCount)}
 
 		keys := maps.Keys(adj)
diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index a7dd3ed..3d59ff1 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -90,6 +90,7 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 	}
 
 	ligArray := make([][][]anchor.Table, ligCount)
+	numAnchors := 0
 	for i := range ligArray {
 		ligAttachPos := ligArrayPos + int64(offsets[i])
 		err = p.SeekPos(ligAttachPos)
@@ -97,24 +98,40 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			return nil, err
 		}
 
+		// Read the "LigatureAttach Table"
 		componentCount, err := p.ReadUint16()
 		if err != nil {
 			return nil, err
 		}
-		ligAttach := make([][]anchor.Table, componentCount)
+		numOffsets := int(componentCount) * markClassCount
+		numAnchors += numOffsets
+		if numAnchors > 65536/2 {
+			// When the table is written without overlapping data, the offsets
+			// of the LigatureAttach tables must fit into 16 bits.
+			return nil, errSubtableTooLarge
+		}
+		anchorOffsets := make([]uint16, numOffsets)
+		for k := range anchorOffsets {
+			anchorOffsets[k], err = p.ReadUint16()
+			if err != nil {
+				return nil, err
+			}
+		}
 
-		for j := 0; j < int(componentCount); j++ {
+		ligAttach := make([][]anchor.Table, componentCount)
+		for j := range ligAttach {
 			row := make([]anchor.Table, markClassCount)
-			for j := range row {
-				if offsets[j] == 0 {
+			for k := range row {
+				offs := anchorOffsets[j*markClassCount+k]
+				if offs == 0 {
 					continue
 				}
-				row[j], err = anchor.Read(p, ligAttachPos+int64(offsets[j]))
+				row[k], err = anchor.Read(p, ligAttachPos+int64(offs))
 				if err != nil {
 					return nil, err
 				}
 			}
-			ligAttach[i] = row
+			ligAttach[j] = row
 		}
 
 		ligArray[i] = ligAttach
@@ -134,12 +151,136 @@ func (l *Gpos5_1) apply(ctx *Context, a, b int) int {
 	return -1
 }
 
-// encode implements the [Subtable] interface.
-func (l *Gpos5_1) encode() []byte {
-	panic("not implemented")
+func (l *Gpos5_1) countMarkClasses() int {
+	for _, ligAttach := range l.LigArray {
+		if len(ligAttach) > 0 {
+			return len(ligAttach[0])
+		}
+	}
+
+	var maxClass uint16
+	for _, rec := range l.MarkArray {
+		if rec.Class > maxClass {
+			maxClass = rec.Class
+		}
+	}
+	return int(maxClass) + 1
+}
+
+// ligAttachLen returns the size of a "LigatureAttach Table".
+func ligAttachLen(ligAttach [][]anchor.Table) int {
+	total := 2
+	for _, row := range ligAttach {
+		for _, rec := range row {
+			total += 2
+			if !rec.IsEmpty() {
+				total += 6
+			}
+		}
+	}
+	return total
 }
 
 // encodeLen implements the [Subtable] interface.
 func (l *Gpos5_1) encodeLen() int {
-	panic("not implemented")
+	total := 12
+	total += l.MarkCov.EncodeLen()
+	total += l.LigCov.EncodeLen()
+	total += 2 + (4+6)*len(l.MarkArray)
+	total += 2 + 2*len(l.LigArray)
+	for _, ligAttach := range l.LigArray {
+		total += ligAttachLen(ligAttach)
+	}
+	return total
+}
+
+// encode implements the [Subtable] interface.
+func (l *Gpos5_1) encode() []byte {
+	markCount := checkCount(len(l.MarkArray))
+	markClassCount := checkCount(l.countMarkClasses())
+	ligCount := checkCount(len(l.LigArray))
+
+	total := 12
+	markCoverageOffset := total
+	total += l.MarkCov.EncodeLen()
+	ligCoverageOffset := toOffset16(total)
+	total += l.LigCov.EncodeLen()
+	markArrayOffset := toOffset16(total)
+	total += 2 + (4+6)*markCount
+	ligArrayOffset := toOffset16(total)
+	total += 2 + 2*ligCount
+	for _, ligAttach := range l.LigArray {
+		total += ligAttachLen(ligAttach)
+	}
+	res := make([]byte, 0, total)
+
+	res = append(res,
+		0, 1, // posFormat
+		byte(markCoverageOffset>>8), byte(markCoverageOffset),
+		byte(ligCoverageOffset>>8), byte(ligCoverageOffset),
+		byte(markClassCount>>8), byte(markClassCount),
+		byte(markArrayOffset>>8), byte(markArrayOffset),
+		byte(ligArrayOffset>>8), byte(ligArrayOffset),
+	)
+
+	res = append(res, l.MarkCov.Encode()...)
+	res = append(res, l.LigCov.Encode()...)
+
+	res = append(res,
+		byte(markCount>>8), byte(markCount),
+	)
+	offs := 2 + 4*markCount
+	for _, rec := range l.MarkArray {
+		res = append(res,
+			byte(rec.Class>>8), byte(rec.Class),
+			byte(toOffset16(offs)>>8), byte(offs),
+		)
+		offs += 6
+	}
+	for _, rec := range l.MarkArray {
+		res = rec.Append(res)
+	}
+
+	res = append(res,
+		byte(ligCount>>8), byte(ligCount),
+	)
+	offs = 2 + 2*ligCount
+	for _, ligAttach := range l.LigArray {
+		res = append(res,
+			byte(toOffset16(offs)>>8), byte(offs),
+		)
+		offs += ligAttachLen(ligAttach)
+	}
+	for _, ligAttach := range l.LigArray {
+		componentCount := checkCount(len(ligAttach))
+		res = append(res,
+			byte(componentCount>>8), byte(componentCount),
+		)
+		offs := 2 + 2*componentCount*markClassCount
+		for _, row := range ligAttach {
+			if len(row) != markClassCount {
+				panic("sfnt/opentype/gtab: inconsistent number of mark classes")
+			}
+			for _, rec := range row {
+				if rec.IsEmpty() {
+					res = append(res, 0, 0)
+					continue
+				}
+				res = append(res,
+					byte(toOffset16(offs)>>8), byte(offs),
+				)
+				offs += 6
+			}
+		}
+		for _, row := range ligAttach {
+			for _, rec := range row {
+				if rec.IsEmpty() {
+					continue
+				}
+				res = rec.Append(res)
+			}
+		}
+	}
+
+	return res
 }
-- 
2.43.0


From 8536ea9275be2cc47f95ab1d14114042ec02ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:54 +0000
Subject: [PATCH 15/74] fix: GSUB/GPOS lookup type and format are not mixed up
 for out of range values

---
 opentype/gtab/gpos.go  | 2 +-
 opentype/gtab/gpos5.go | 2 +-
 opentype/gtab/gsub.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index a052ed4..231ff56 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -43,7 +43,7 @@ func readGposSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 	}
 
 	reader, ok := gposReaders[10*meta.LookupType+format]
-	if !ok {
+	if !ok || meta.LookupType > 9 || format > 9 {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/opentype/gtab",
 			Reason: fmt.Sprintf("unknown GPOS subtable format %d.%d",
diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index 3d59ff1..64af013 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -104,7 +104,7 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			return nil, err
 		}
 		numOffsets := int(componentCount) * markClassCount
-		numAnchors += numOffsets
+		numAnchors += max(numOffsets, int(componentCount))
 		if numAnchors > 65536/2 {
 			// When the table is written without overlapping data, the offsets
 			// of the LigatureAttach tables must fit into 16 bits.
diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 395a760..65efb2b 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -39,7 +39,7 @@ func readGsubSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 	}
 
 	reader, ok := gsubReaders[10*meta.LookupType+format]
-	if !ok {
+	if !ok || meta.LookupType > 9 || format > 9 {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/opentype/gtab",
 			Reason: fmt.Sprintf("unknown GSUB subtable format %d.%d",
-- 
2.43.0


From a4aab61125d8493cf23ae7234fa96afeed021594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:34 +0000
Subject: [PATCH 16/74] fix: GSUB/GPOS script lists survive encoding, also for
 script tags with spaces, and header offsets do not overflow

---
 opentype/gtab/gtab.go       | 61 ++++++++++++++++++++++++-------------
 opentype/gtab/locale.go     | 20 +++++++++---
 opentype/gtab/scriptlist.go | 61 ++++++++++++++++++++++++++++---------
 3 files changed, 101 insertions(+), 41 deletions(-)

diff --git a/opentype/gtab/gtab.go b/opentype/gtab/gtab.go
index a9593fb..c10f391 100644
--- a/opentype/gtab/gtab.go
+++ b/opentype/gtab/gtab.go
@@ -114,18 +114,15 @@ func readGtab(r parser.ReadSeekSizer, tp Type, sr subtableReader) (*Info, error)
 		endOfHeader += 4
 	}
 
-	if header.ScriptListOffset == 0 || header.LookupListOffset == 0 {
-		return &Info{
-			ScriptList: make(ScriptListInfo),
-		}, nil
-	}
-
 	fileSize := p.Size()
 	for _, offset := range []uint32{
 		uint32(header.ScriptListOffset),
 		uint32(header.FeatureListOffset),
 		uint32(header.LookupListOffset),
 	} {
+		if offset == 0 {
+			continue
+		}
 		if offset < endOfHeader || int64(offset) >= fileSize {
 			return nil, &parser.InvalidFontError{
 				SubSystem: "sfnt/opentype/gtab",
@@ -143,17 +140,39 @@ func readGtab(r parser.ReadSeekSizer, tp Type, sr subtableReader) (*Info, error)
 	}
 
 	info := &Info{}
-	info.ScriptList, err = readScriptList(p, int64(header.ScriptListOffset))
-	if err != nil {
-		return nil, err
+	if header.ScriptListOffset != 0 {
+		info.ScriptList, err = readScriptList(p, int64(header.ScriptListOffset))
+		if err != nil {
+			return nil, err
+		}
 	}
-	info.FeatureList, err = readFeatureList(p, int64(header.FeatureListOffset))
-	if err != nil {
-		return nil, err
+	if header.FeatureListOffset != 0 {
+		info.FeatureList, err = readFeatureList(p, int64(header.FeatureListOffset))
+		if err != nil {
+			return nil, err
+		}
 	}
-	info.LookupList, err = readLookupList(p, int64(header.LookupListOffset), sr)
-	if err != nil {
-		return nil, err
+	if header.LookupListOffset != 0 {
+		info.LookupList, err = readLookupList(p, int64(header.LookupListOffset), sr)
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	// Make sure that the 16-bit offsets in the header do not overflow, when
+	// the table is written again.
+	total := int(endOfHeader)
+	if info.ScriptList != nil {
+		total += len(info.ScriptList.encode())
+	}
+	if info.FeatureList != nil {
+		total += len(info.FeatureList.encode())
+	}
+	if total > 0xFFFF {
+		return nil, &parser.InvalidFontError{
+			SubSystem: "sfnt/opentype/gtab",
+			Reason:    fmt.Sprintf("%s script and feature lists too large", tp),
+		}
 	}
 
 	_ = FeatureVariationsOffset // TODO(voss): implement this
@@ -168,19 +187,19 @@ func (info *Info) Encode() []byte {
 	lookupList := info.LookupList.encode()
 
 	total := 10
-	var scriptListOffset int
+	var scriptListOffset uint16
 	if scriptList != nil {
-		scriptListOffset = total
+		scriptListOffset = toOffset16(total)
 		total += len(scriptList)
 	}
-	var featureListOffset int
+	var featureListOffset uint16
 	if featureList != nil {
-		featureListOffset = total
+		featureListOffset = toOffset16(total)
 		total += len(featureList)
 	}
-	var lookupListOffset int
+	var lookupListOffset uint16
 	if lookupList != nil {
-		lookupListOffset = total
+		lookupListOffset = toOffset16(total)
 		total += len(lookupList)
 	}
 
diff --git a/opentype/gtab/locale.go b/opentype/gtab/locale.go
index 01b5e93..d721633 100644
--- a/opentype/gtab/locale.go
+++ b/opentype/gtab/locale.go
@@ -41,7 +41,7 @@ func otfToBCP47(script otfScript, lang otfLang) (language.Tag, error) {
 		tag += "-" + bcpScript
 	}
 
-	tag += "-x-" + string(script)
+	tag += "-x-" + strings.TrimRight(string(script), " ")
 	for len(lang) > 0 && lang[len(lang)-1] == ' ' {
 		lang = lang[:len(lang)-1]
 	}
@@ -66,6 +66,9 @@ func bcp47ToOtf(tag language.Tag) (otfScript, otfLang, error) {
 		if script == "dflt" {
 			script = "DFLT"
 		}
+		for len(script) < 4 {
+			script += " "
+		}
 		if len(m) > 2 {
 			lang = strings.ToUpper(m[2])
 			for len(lang) < 4 {
@@ -87,21 +90,28 @@ func bcp47ToOtf(tag language.Tag) (otfScript, otfLang, error) {
 		scriptTag, _ := tag.Script()
 		bcpScript := scriptTag.String()
 
+		// If there is more than one matching OpenType tag, always choose the
+		// same one.
 		for key, val := range langBcp47 {
-			if val == bcpLang {
+			if val == bcpLang && (lang == "" || string(key) < lang) {
 				lang = string(key)
-				break
 			}
 		}
+		if lang == "" && bcpLang != "und" {
+			return "", "", fmt.Errorf("no OpenType language tag for %q", tag)
+		}
 
 		for key, val := range scriptBcp47 {
-			if val == bcpScript {
+			if val == bcpScript && (script == "" || string(key) < script) {
 				script = string(key)
-				break
 			}
 		}
 	}
 
+	if len(script) != 4 || len(lang) != 0 && len(lang) != 4 {
+		return "", "", fmt.Errorf("no OpenType script/language tags for %q", tag)
+	}
+
 	return otfScript(script), otfLang(lang), nil
 }
 
diff --git a/opentype/gtab/scriptlist.go b/opentype/gtab/scriptlist.go
index 51de9bc..a21b69b 100644
--- a/opentype/gtab/scriptlist.go
+++ b/opentype/gtab/scriptlist.go
@@ -17,6 +17,7 @@
 package gtab
 
 import (
+	"fmt"
 	"sort"
 
 	"golang.org/x/text/language"
@@ -35,6 +36,15 @@ type Features struct {
 	Optional []FeatureIndex
 }
 
+// maxScriptListSize is the maximal size of a script list.  This ensures that
+// all offsets inside the script list can be represented.
+const maxScriptListSize = 0xFFFF
+
+var errScriptListTooLarge = &parser.InvalidFontError{
+	SubSystem: "sfnt/gtab",
+	Reason:    "script list too large",
+}
+
 type scriptTableEntry struct {
 	script otfScript
 	offset uint16
@@ -85,39 +95,47 @@ func readScriptList(p *parser.Parser, pos int64) (ScriptListInfo, error) {
 	}
 
 	info := ScriptListInfo{}
+	totalSize := 2 + 6*len(entries)
 	for _, entry := range entries {
-		err = info.readScriptTable(entry.script, p, pos+int64(entry.offset))
+		n, err := info.readScriptTable(entry.script, p, pos+int64(entry.offset))
 		if err != nil {
 			return nil, err
 		}
+		totalSize += n
+		if totalSize > maxScriptListSize {
+			return nil, errScriptListTooLarge
+		}
 	}
 
 	return info, nil
 }
 
 // https://docs.microsoft.com/en-us/typography/opentype/spec/chapter2#script-table-and-language-system-record
-func (info ScriptListInfo) readScriptTable(script otfScript, p *parser.Parser, pos int64) error {
+//
+// The return value is the size of the script table, including the language
+// system tables.
+func (info ScriptListInfo) readScriptTable(script otfScript, p *parser.Parser, pos int64) (int, error) {
 	err := p.SeekPos(pos)
 	if err != nil {
-		return err
+		return 0, err
 	}
 
 	data, err := p.ReadBytes(4)
 	if err != nil {
-		return err
+		return 0, err
 	}
 
 	defaultLangSysOffset := uint16(data[0])<<8 | uint16(data[1])
 	langSysCount := uint16(data[2])<<8 | uint16(data[3])
 
-	if defaultLangSysOffset > 0 && defaultLangSysOffset < 4+6*langSysCount {
-		return &parser.InvalidFontError{
+	if defaultLangSysOffset > 0 && int(defaultLangSysOffset) < 4+6*int(langSysCount) {
+		return 0, &parser.InvalidFontError{
 			SubSystem: "sfnt/gtab",
 			Reason:    "invalid defaultLangSysOffset",
 		}
 	}
 	if 8+int64(langSysCount)*12 > p.Size() {
-		return &parser.InvalidFontError{
+		return 0, &parser.InvalidFontError{
 			SubSystem: "sfnt/gtab",
 			Reason:    "invalid langSysCount",
 		}
@@ -137,7 +155,7 @@ func (info ScriptListInfo) readScriptTable(script otfScript, p *parser.Parser, p
 	for i := 0; i < int(langSysCount); i++ {
 		buf, err := p.ReadBytes(6)
 		if err != nil {
-			return err
+			return 0, err
 		}
 
 		lang := otfLang(buf[:4])
@@ -151,10 +169,15 @@ func (info ScriptListInfo) readScriptTable(script otfScript, p *parser.Parser, p
 		return records[i].offset < records[j].offset
 	})
 
+	totalSize := 4 + 6*int(langSysCount)
 	for _, record := range records {
 		ff, err := readLangSysTable(p, pos+int64(record.offset))
 		if err != nil {
-			return err
+			return 0, err
+		}
+		totalSize += 6 + 2*len(ff.Optional)
+		if totalSize > maxScriptListSize {
+			return 0, errScriptListTooLarge
 		}
 		tag, err := otfToBCP47(script, record.lang)
 		if err != nil {
@@ -164,7 +187,7 @@ func (info ScriptListInfo) readScriptTable(script otfScript, p *parser.Parser, p
 		info[tag] = ff
 	}
 
-	return nil
+	return totalSize, nil
 }
 
 // https://docs.microsoft.com/en-us/typography/opentype/spec/chapter2#language-system-table
@@ -188,7 +211,7 @@ func readLangSysTable(p *parser.Parser, pos int64) (*Features, error) {
 		}
 	}
 
-	featureIndices := make([]FeatureIndex, featureIndexCount)
+	featureIndices := make([]FeatureIndex, 0, featureIndexCount)
 	for i := 0; i < int(featureIndexCount); i++ {
 		idx, err := p.ReadUint16()
 		if err != nil {
@@ -196,7 +219,7 @@ func readLangSysTable(p *parser.Parser, pos int64) (*Features, error) {
 		} else if idx == 0xFFFF {
 			continue
 		}
-		featureIndices[i] = FeatureIndex(idx)
+		featureIndices = append(featureIndices, FeatureIndex(idx))
 	}
 
 	return &Features{
@@ -212,10 +235,15 @@ func (info ScriptListInfo) encode() []byte {
 
 	scriptLangs := map[otfScript][]language.Tag{}
 	for tag := range info {
-		script, _, err := bcp47ToOtf(tag)
+		script, lang, err := bcp47ToOtf(tag)
 		if err != nil {
-			// TODO(voss): what to do here?
-			continue
+			panic(err)
+		}
+		for _, other := range scriptLangs[script] {
+			_, otherLang, _ := bcp47ToOtf(other)
+			if lang == otherLang {
+				panic(fmt.Sprintf("duplicate script/language %q/%q", script, lang))
+			}
 		}
 		scriptLangs[script] = append(scriptLangs[script], tag)
 	}
@@ -245,6 +273,9 @@ func (info ScriptListInfo) encode() []byte {
 		}
 		totalSize += 4 + 6*langCount // defaultLangSysOffset, langSysCount, langSysRecords
 	}
+	if totalSize > maxScriptListSize {
+		panic("script list too large")
+	}
 
 	buf := make([]byte, totalSize)
 
-- 
2.43.0


From c4d7cbee78f9c8c7bd602bc7875bf6c5110a2fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:34 +0000
Subject: [PATCH 17/74] fix: GDEF offsets do not overflow and inconsistent
 coverage tables are refused

---
 opentype/coverage/coverage.go |   5 ++
 opentype/gdef/gdef.go         | 137 ++++++++++++++++++++++------------
 2 files changed, 96 insertions(+), 46 deletions(-)

diff --git a/opentype/coverage/coverage.go b/opentype/coverage/coverage.go
index d7672c0..e34b1c8 100644
--- a/opentype/coverage/coverage.go
+++ b/opentype/coverage/coverage.go
@@ -154,6 +154,11 @@ func (table Table) encInfo() ([]glyph.ID, int, int) {
 	for gid, i := range table {
 		rev[i] = gid
 	}
+	for gid, i := range table {
+		if rev[i] != gid {
+			panic("invalid coverage table")
+		}
+	}
 	for i := 1; i < len(rev); i++ {
 		if rev[i-1] >= rev[i] {
 			panic("invalid coverage table")
diff --git a/opentype/gdef/gdef.go b/opentype/gdef/gdef.go
index 0dd5540..53c8ecd 100644
--- a/opentype/gdef/gdef.go
+++ b/opentype/gdef/gdef.go
@@ -19,6 +19,7 @@ package gdef
 
 import (
 	"fmt"
+	"sort"
 
 	"seehuhn.de/go/sfnt/glyph"
 	"seehuhn.de/go/sfnt/opentype/classdef"
@@ -45,6 +46,11 @@ func (table *Table) IsMark(gid glyph.ID) bool {
 	return table.GlyphClass[gid] == GlyphClassMark
 }
 
+// maxMarkGlyphSetGlyphs is an upper bound for the total number of glyphs in all
+// the mark glyph sets.  This limits the amount of memory malformed font files
+// can use.
+const maxMarkGlyphSetGlyphs = 1 << 20
+
 // Read reads the GDEF table.
 func Read(r parser.ReadSeekSizer) (*Table, error) {
 	p := parser.New(r)
@@ -98,6 +104,7 @@ func Read(r parser.ReadSeekSizer) (*Table, error) {
 		}
 	}
 
+	markGlyphSetsSize := 0
 	if markGlyphSetsDefOffset != 0 {
 		pos := int64(markGlyphSetsDefOffset)
 		err = p.SeekPos(pos)
@@ -125,11 +132,38 @@ func Read(r parser.ReadSeekSizer) (*Table, error) {
 		}
 
 		table.MarkGlyphSets = make([]coverage.Set, markGlyphSetCount)
+		markGlyphSetsSize += 4 + 4*int(markGlyphSetCount)
+		numGlyphs := 0
 		for i := range table.MarkGlyphSets {
 			table.MarkGlyphSets[i], err = coverage.ReadSet(p, pos+int64(coverageOffsets[i]))
 			if err != nil {
 				return nil, err
 			}
+			markGlyphSetsSize += table.MarkGlyphSets[i].ToTable().EncodeLen()
+			numGlyphs += len(table.MarkGlyphSets[i])
+			if numGlyphs > maxMarkGlyphSetGlyphs {
+				return nil, &parser.InvalidFontError{
+					SubSystem: "sfnt/opentype/gdef",
+					Reason:    "mark glyph sets too large",
+				}
+			}
+		}
+	}
+
+	// Make sure that the 16-bit offsets in the header do not overflow, when the
+	// table is written again.
+	sizes := []int{0, 0, markGlyphSetsSize}
+	if table.GlyphClass != nil {
+		sizes[0] = table.GlyphClass.AppendLen()
+	}
+	if table.MarkAttachClass != nil {
+		sizes[1] = table.MarkAttachClass.AppendLen()
+	}
+	sort.Ints(sizes)
+	if 14+sizes[0]+sizes[1] > 0xFFFF {
+		return nil, &parser.InvalidFontError{
+			SubSystem: "sfnt/opentype/gdef",
+			Reason:    "table too large",
 		}
 	}
 
@@ -138,71 +172,82 @@ func Read(r parser.ReadSeekSizer) (*Table, error) {
 	return table, nil
 }
 
+// encodeMarkGlyphSets returns the binary representation of the mark glyph sets
+// table.
+func (table *Table) encodeMarkGlyphSets() []byte {
+	markGlyphSetCount := len(table.MarkGlyphSets)
+	if markGlyphSetCount > 0xFFFF {
+		panic("sfnt/opentype/gdef: too many mark glyph sets")
+	}
+
+	offs := 4 + 4*markGlyphSetCount
+	buf := make([]byte, 0, offs)
+	buf = append(buf,
+		0, 1, // format
+		byte(markGlyphSetCount>>8), byte(markGlyphSetCount))
+	sets := make([][]byte, markGlyphSetCount)
+	for i, set := range table.MarkGlyphSets {
+		sets[i] = set.ToTable().Encode()
+		buf = append(buf,
+			byte(offs>>24), byte(offs>>16), byte(offs>>8), byte(offs))
+		offs += len(sets[i])
+	}
+	for _, set := range sets {
+		buf = append(buf, set...)
+	}
+	return buf
+}
+
 // Encode converts the GDEF table to its binary form.
 func (table *Table) Encode() []byte {
 	version := uint32(0x00010000)
-	total := 12
-
+	headerLen := 12
 	if table.MarkGlyphSets != nil {
 		version = 0x00010002
-		total = 14
+		headerLen = 14
 	}
 
-	var glyphClassDefOffset int
+	type part struct {
+		offsetPos int // position of the offset inside the header
+		body      []byte
+	}
+	var parts []part
 	if table.GlyphClass != nil {
-		glyphClassDefOffset = total
-		total += table.GlyphClass.AppendLen()
+		parts = append(parts, part{4, table.GlyphClass.Append(nil)})
 	}
-	var markAttachClassDefOffset int
 	if table.MarkAttachClass != nil {
-		markAttachClassDefOffset = total
-		total += table.MarkAttachClass.AppendLen()
+		parts = append(parts, part{10, table.MarkAttachClass.Append(nil)})
 	}
-	var markGlyphSetsDefOffset int
 	if table.MarkGlyphSets != nil {
-		markGlyphSetsDefOffset = total
-		total += 4 + 4*len(table.MarkGlyphSets)
-		for _, set := range table.MarkGlyphSets {
-			cov := set.ToTable()
-			total += cov.EncodeLen()
-		}
+		parts = append(parts, part{12, table.encodeMarkGlyphSets()})
+	}
+
+	total := headerLen
+	lastOffset := 0
+	for _, part := range parts {
+		lastOffset = total
+		total += len(part.body)
+	}
+	if lastOffset > 0xFFFF {
+		// write the largest part last
+		sort.SliceStable(parts, func(i, j int) bool {
+			return len(parts[i].body) < len(parts[j].body)
+		})
 	}
 
-	buf := make([]byte, 12, total)
-	// We always write table version 1.0:
+	buf := make([]byte, headerLen, total)
 	buf[0] = byte(version >> 24)
 	buf[1] = byte(version >> 16)
 	buf[2] = byte(version >> 8)
 	buf[3] = byte(version)
-	buf[4] = byte(glyphClassDefOffset >> 8)
-	buf[5] = byte(glyphClassDefOffset)
-	buf[10] = byte(markAttachClassDefOffset >> 8)
-	buf[11] = byte(markAttachClassDefOffset)
-	if version >= 0x00010002 {
-		buf = append(buf, byte(markGlyphSetsDefOffset>>8), byte(markGlyphSetsDefOffset))
-	}
-	if glyphClassDefOffset > 0 {
-		buf = table.GlyphClass.Append(buf)
-	}
-	if markAttachClassDefOffset > 0 {
-		buf = table.MarkAttachClass.Append(buf)
-	}
-	if markGlyphSetsDefOffset > 0 {
-		markGlyphSetCount := len(table.MarkGlyphSets)
-		buf = append(buf,
-			0, 1, // format
-			byte(markGlyphSetCount>>8), byte(markGlyphSetCount))
-		offs := 4 + 4*markGlyphSetCount
-		for _, set := range table.MarkGlyphSets {
-			buf = append(buf,
-				byte(offs>>24), byte(offs>>16), byte(offs>>8), byte(offs))
-			cov := set.ToTable()
-			offs += cov.EncodeLen()
-		}
-		for _, set := range table.MarkGlyphSets {
-			cov := set.ToTable()
-			buf = append(buf, cov.Encode()...)
+	for _, part := range parts {
+		offset := len(buf)
+		if offset > 0xFFFF {
+			panic("sfnt/opentype/gdef: table too large")
 		}
+		buf[part.offsetPos] = byte(offset >> 8)
+		buf[part.offsetPos+1] = byte(offset)
+		buf = append(buf, part.body...)
 	}
 	return buf
 }
-- 
2.43.0


From cf6423649a33fd0fe19112801966497526cb3841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:23 +0000
Subject: [PATCH 18/74] fix: feature and class tables refuse data which cannot
 be represented

Feature tags must have four bytes, more than 65535 lookups per feature and
the feature index 0xFFFF are refused, class definition format 1 is not used
for 65536 glyphs, and ranges in class definition tables cannot be reversed.
Reading only limits the sizes of lists which are followed by another list.
---
 opentype/classdef/classdef.go | 13 +++++++++++--
 opentype/gtab/featurelist.go  |  4 ++++
 opentype/gtab/gtab.go         |  4 ++--
 opentype/gtab/scriptlist.go   |  4 ++++
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/opentype/classdef/classdef.go b/opentype/classdef/classdef.go
index 03a3a48..192c584 100644
--- a/opentype/classdef/classdef.go
+++ b/opentype/classdef/classdef.go
@@ -20,6 +20,7 @@ package classdef
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"seehuhn.de/go/sfnt/glyph"
@@ -116,7 +117,7 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 			endGlyphID := glyph.ID(data[2])<<8 | glyph.ID(data[3])
 			classValue := uint16(data[4])<<8 | uint16(data[5])
 
-			if i > 0 && startGlyphID <= prevEnd {
+			if i > 0 && startGlyphID <= prevEnd || endGlyphID < startGlyphID {
 				return nil, &parser.InvalidFontError{
 					SubSystem: "opentype/classdef",
 					Reason:    "overlapping ranges in class definition table",
@@ -158,7 +159,12 @@ func (info Table) getEncInfo() *encInfo {
 		}
 	}
 
-	format1Size := 6 + 2*(int(maxGid)-int(minGid)+1)
+	glyphCount := int(maxGid) - int(minGid) + 1
+	format1Size := 6 + 2*glyphCount
+	if glyphCount > 0xFFFF {
+		// the glyph count does not fit into the 16-bit field of format 1
+		format1Size = math.MaxInt
+	}
 
 	segCount := 0
 	segStart := -1
@@ -180,6 +186,9 @@ func (info Table) getEncInfo() *encInfo {
 	if segStart >= 0 {
 		segCount++
 	}
+	if glyphCount > 0xFFFF && segCount > 0xFFFF {
+		panic("opentype/classdef: table too large")
+	}
 
 	format2Size := 4 + 6*segCount
 
diff --git a/opentype/gtab/featurelist.go b/opentype/gtab/featurelist.go
index 91bdd6a..dc61589 100644
--- a/opentype/gtab/featurelist.go
+++ b/opentype/gtab/featurelist.go
@@ -123,6 +123,10 @@ func (info FeatureListInfo) encode() []byte {
 	totalSize := 2 + 6*len(info)
 	var largestOffset int
 	for i, f := range info {
+		if len(f.Tag) != 4 {
+			panic(fmt.Sprintf("invalid feature tag %q", f.Tag))
+		}
+		checkCount(len(f.Lookups))
 		largestOffset = totalSize
 		offs[i] = uint16(totalSize)
 		totalSize += 4 + 2*len(f.Lookups)
diff --git a/opentype/gtab/gtab.go b/opentype/gtab/gtab.go
index c10f391..b47eb6c 100644
--- a/opentype/gtab/gtab.go
+++ b/opentype/gtab/gtab.go
@@ -162,10 +162,10 @@ func readGtab(r parser.ReadSeekSizer, tp Type, sr subtableReader) (*Info, error)
 	// Make sure that the 16-bit offsets in the header do not overflow, when
 	// the table is written again.
 	total := int(endOfHeader)
-	if info.ScriptList != nil {
+	if info.ScriptList != nil && (info.FeatureList != nil || info.LookupList != nil) {
 		total += len(info.ScriptList.encode())
 	}
-	if info.FeatureList != nil {
+	if info.FeatureList != nil && info.LookupList != nil {
 		total += len(info.FeatureList.encode())
 	}
 	if total > 0xFFFF {
diff --git a/opentype/gtab/scriptlist.go b/opentype/gtab/scriptlist.go
index a21b69b..1ae669e 100644
--- a/opentype/gtab/scriptlist.go
+++ b/opentype/gtab/scriptlist.go
@@ -18,6 +18,7 @@ package gtab
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 
 	"golang.org/x/text/language"
@@ -268,6 +269,9 @@ func (info ScriptListInfo) encode() []byte {
 				langCount++
 			}
 			langSys := info[tag]
+			if slices.Contains(langSys.Optional, 0xFFFF) {
+				panic("invalid feature index 0xFFFF")
+			}
 			// lookupOrderOffset, requiredFeatureIndex, featureIndexCount, featureIndices:
 			totalSize += 6 + len(langSys.Optional)*2
 		}
-- 
2.43.0


From 92b3f2eac1e3d165eda5453803a3e75202f618fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:33 +0000
Subject: [PATCH 19/74] fix: mark filtering set index can be out of range

---
 opentype/gtab/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/filter.go b/opentype/gtab/filter.go
index 6b7c5b9..7561019 100644
--- a/opentype/gtab/filter.go
+++ b/opentype/gtab/filter.go
@@ -85,8 +85,8 @@ func (k *keepFunc) Keep(gid glyph.ID) bool {
 		} else if flags&UseMarkFilteringSet != 0 {
 			// If a mark filtering set is specified, this supersedes any mark
 			// attachment type indication in the lookup flag.
-			set := k.Meta.MarkFilteringSet
-			if k.Gdef.MarkGlyphSets == nil || !k.Gdef.MarkGlyphSets[set][gid] {
+			set := int(k.Meta.MarkFilteringSet)
+			if set >= len(k.Gdef.MarkGlyphSets) || !k.Gdef.MarkGlyphSets[set][gid] {
 				return false
 			}
 		} else if m := flags & MarkAttachTypeMask; m != 0 {
-- 
2.43.0


From 3f7c66e6e3c0bafd2e2c51f67579ee218703642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:33 +0000
Subject: [PATCH 20/74] fix: mark attachment finds the right base glyph and
 respects its offset

---
 opentype/gtab/gpos4.go | 31 +++++++++++++++++++++++--------
 opentype/gtab/gpos6.go | 15 +++++++--------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index 868dab7..d492475 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -17,8 +17,10 @@
 package gtab
 
 import (
+	"seehuhn.de/go/sfnt/glyph"
 	"seehuhn.de/go/sfnt/opentype/anchor"
 	"seehuhn.de/go/sfnt/opentype/coverage"
+	"seehuhn.de/go/sfnt/opentype/gdef"
 	"seehuhn.de/go/sfnt/opentype/markarray"
 	"seehuhn.de/go/sfnt/parser"
 )
@@ -133,26 +135,26 @@ func (l *Gpos4_1) apply(ctx *Context, a, b int) int {
 	if a == 0 {
 		return -1
 	}
+	// find the preceding base glyph, skipping over marks
 	p := a - 1
-	var baseIdx int
-	for p >= 0 {
-		baseIdx, ok = l.BaseCov[seq[p].GID]
-		if ok {
-			break
-		}
+	for p >= 0 && (!ctx.keep.Keep(seq[p].GID) || l.isMark(ctx, seq[p].GID)) {
 		p--
 	}
 	if p < 0 {
 		return -1
 	}
+	baseIdx, ok := l.BaseCov[seq[p].GID]
+	if !ok || int(markRecord.Class) >= len(l.BaseArray[baseIdx]) {
+		return -1
+	}
 	baseRecord := l.BaseArray[baseIdx][markRecord.Class]
 	if baseRecord.IsEmpty() {
 		// TODO(voss): verify that this is what others do, too.
 		return -1
 	}
 
-	dx := baseRecord.X - markRecord.X
-	dy := baseRecord.Y - markRecord.Y
+	dx := seq[p].XOffset + baseRecord.X - markRecord.X
+	dy := seq[p].YOffset + baseRecord.Y - markRecord.Y
 	for i := p; i < a; i++ {
 		dx -= seq[i].Advance
 	}
@@ -161,6 +163,19 @@ func (l *Gpos4_1) apply(ctx *Context, a, b int) int {
 	return a + 1
 }
 
+// isMark returns true if the glyph is a mark.  If the font has no glyph class
+// definitions, the coverage tables are used instead.
+func (l *Gpos4_1) isMark(ctx *Context, gid glyph.ID) bool {
+	if ctx.gdef != nil && ctx.gdef.GlyphClass != nil {
+		return ctx.gdef.GlyphClass[gid] == gdef.GlyphClassMark
+	}
+	if _, isBase := l.BaseCov[gid]; isBase {
+		return false
+	}
+	_, isMark := l.MarkCov[gid]
+	return isMark
+}
+
 func (l *Gpos4_1) countMarkClasses() int {
 	if len(l.BaseArray) > 0 {
 		return len(l.BaseArray[0])
diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index 592b169..36a4d36 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -132,25 +132,24 @@ func (l *Gpos6_1) apply(ctx *Context, a, b int) int {
 		return -1
 	}
 	p := a - 1
-	var mark2Idx int
-	for p >= 0 {
-		mark2Idx, ok = l.Mark2Cov[seq[p].GID]
-		if ok {
-			break
-		}
+	for p >= 0 && !ctx.keep.Keep(seq[p].GID) {
 		p--
 	}
 	if p < 0 {
 		return -1
 	}
+	mark2Idx, ok := l.Mark2Cov[seq[p].GID]
+	if !ok || int(mark1Record.Class) >= len(l.Mark2Array[mark2Idx]) {
+		return -1
+	}
 	mark2Record := l.Mark2Array[mark2Idx][mark1Record.Class]
 	if mark2Record.IsEmpty() {
 		// TODO(voss): verify that this is what others do, too.
 		return -1
 	}
 
-	dx := mark2Record.X - mark1Record.X
-	dy := mark2Record.Y - mark1Record.Y
+	dx := seq[p].XOffset + mark2Record.X - mark1Record.X
+	dy := seq[p].YOffset + mark2Record.Y - mark1Record.Y
 	for i := p; i < a; i++ {
 		dx -= seq[i].Advance
 	}
-- 
2.43.0


From 0eae46521c294fccc15c3aae65468668c1d01329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:33 +0000
Subject: [PATCH 21/74] fix: ligature matching and empty GSUB 2.1 replacements

---
 opentype/gtab/gsub.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 65efb2b..2bcaae7 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -280,8 +280,11 @@ func (l *Gsub2_1) apply(ctx *Context, a, b int) int {
 	}
 
 	repl := l.Repl[idx]
-	seq[a].GID = repl[0]
 	k := len(repl)
+	if k == 0 {
+		return -1
+	}
+	seq[a].GID = repl[0]
 	if k > 1 {
 		// insert k-1 new glyphs after position a
 		seq = slices.Grow(seq, k-1)
@@ -616,7 +619,7 @@ ligLoop:
 		lig := &ligSet[j]
 
 		matchPos = matchPos[:0]
-		skipPos = matchPos[:0]
+		skipPos = skipPos[:0]
 		text = text[:0]
 
 		matchPos = append(matchPos, a)
-- 
2.43.0


From bee5ea1e24d25e81fd9e50c9c42262b55d3f5b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:33 +0000
Subject: [PATCH 22/74] fix: class range in SeqContext2, input positions in
 ChainedSeqContext3

---
 opentype/gtab/nested.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index 43b4f24..5dda542 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -401,6 +401,9 @@ func (l *SeqContext2) apply(ctx *Context, a, b int) int {
 		return -1
 	}
 	ruleIdx := l.Input[gid]
+	if int(ruleIdx) >= len(l.Rules) {
+		return -1
+	}
 	rules := l.Rules[ruleIdx]
 
 	matchPos := ctx.scratch
@@ -582,8 +585,7 @@ func (l *SeqContext3) apply(ctx *Context, a, b int) int {
 	seq := ctx.seq
 	keep := ctx.keep
 
-	gid := seq[a].GID
-	if !l.Input[0][gid] {
+	if len(l.Input) == 0 || !l.Input[0][seq[a].GID] {
 		return -1
 	}
 
@@ -1447,6 +1449,10 @@ func (l *ChainedSeqContext3) apply(ctx *Context, a, b int) int {
 	seq := ctx.seq
 	keep := ctx.keep
 
+	if len(l.Input) == 0 || !l.Input[0][seq[a].GID] {
+		return -1
+	}
+
 	p := a
 	glyphsNeeded := len(l.Backtrack)
 	for _, cov := range l.Backtrack {
@@ -1462,32 +1468,37 @@ func (l *ChainedSeqContext3) apply(ctx *Context, a, b int) int {
 
 	p = a
 	matchPos := append(ctx.scratch[:0], p)
-	glyphsNeeded = len(l.Input)
-	for _, cov := range l.Input {
-		if p+glyphsNeeded-1 >= b || !cov[seq[p].GID] {
-			ctx.scratch = matchPos // return the scratch space
-			return -1
-		}
-		matchPos = append(matchPos, p)
+	glyphsNeeded = len(l.Input) - 1
+	for _, cov := range l.Input[1:] {
 		glyphsNeeded--
 		p++
 		for p+glyphsNeeded < b && !keep.Keep(seq[p].GID) {
 			p++
 		}
+		if p+glyphsNeeded >= b || !cov[seq[p].GID] {
+			ctx.scratch = matchPos // return the scratch space
+			return -1
+		}
+		matchPos = append(matchPos, p)
 	}
 	next := p
 
 	glyphsNeeded = len(l.Lookahead)
 	for _, cov := range l.Lookahead {
-		if p+glyphsNeeded-1 >= len(seq) || !cov[seq[p].GID] {
-			ctx.scratch = matchPos // return the scratch space
-			return -1
-		}
 		glyphsNeeded--
 		p++
 		for p+glyphsNeeded < len(seq) && !keep.Keep(seq[p].GID) {
 			p++
 		}
+		if p+glyphsNeeded >= len(seq) || !cov[seq[p].GID] {
+			ctx.scratch = matchPos // return the scratch space
+			return -1
+		}
+	}
+
+	next++
+	for next < b && !keep.Keep(seq[next].GID) {
+		next++
 	}
 
 	ctx.scratch = nil // claim the scratch space as our own
-- 
2.43.0


From 1b6a69138031a5759acb51970a2a1ef1861a6228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:33 +0000
Subject: [PATCH 23/74] fix: nested action budget leaves stale state, GSUB 8
 lookups run backwards

---
 opentype/gtab/layout.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/layout.go b/opentype/gtab/layout.go
index 0b905bc..4e295cd 100644
--- a/opentype/gtab/layout.go
+++ b/opentype/gtab/layout.go
@@ -74,8 +74,16 @@ func (ctx *Context) Apply(seq []glyph.Info) []glyph.Info {
 		ctx.lookup = ctx.ll[lookupIndex]
 		ctx.keep = newKeepFunc(ctx.ll[lookupIndex].Meta, ctx.gdef)
 
+		if ctx.lookup.isReverse() {
+			for pos := len(seq) - 1; pos >= 0; pos-- {
+				if ctx.keep.Keep(seq[pos].GID) {
+					ctx.applyAt(ctx.lookup.Subtables, pos, len(seq))
+				}
+			}
+			continue
+		}
+
 		pos := 0
-		// TODO(voss): GSUB 8.1 subtables are applied in reverse order.
 		for pos < len(ctx.seq) {
 			oldTodo := len(ctx.seq) - pos
 			pos = ctx.applyAtRecursively(pos)
@@ -93,6 +101,16 @@ func (ctx *Context) Apply(seq []glyph.Info) []glyph.Info {
 	return seq
 }
 
+// isReverse returns true for GSUB type 8 lookups.  These are applied in
+// reverse order, from the last glyph of the sequence to the first one.
+func (t *LookupTable) isReverse() bool {
+	if len(t.Subtables) == 0 {
+		return false
+	}
+	_, ok := t.Subtables[0].(*Gsub8_1)
+	return ok
+}
+
 // applyAtRecursively applies a single lookup to the given glyphs at position
 // pos.  It returns the new glyph sequence and position for the next lookup.
 func (ctx *Context) applyAtRecursively(pos int) int {
@@ -121,12 +139,12 @@ func (ctx *Context) applyAtRecursively(pos int) int {
 
 		lookupIndex := ctx.stack[k].Actions[0].LookupListIndex
 		seqIdx := ctx.stack[k].Actions[0].SequenceIndex
+		ctx.stack[k].Actions = ctx.stack[k].Actions[1:]
 		if int(seqIdx) >= len(ctx.stack[k].InputPos) {
 			continue
 		}
 		pos := ctx.stack[k].InputPos[seqIdx]
 		end := ctx.stack[k].EndPos
-		ctx.stack[k].Actions = ctx.stack[k].Actions[1:]
 
 		if int(lookupIndex) >= len(ctx.ll) {
 			continue
@@ -145,6 +163,11 @@ func (ctx *Context) applyAtRecursively(pos int) int {
 			ctx.keep = oldKeep
 		}
 	}
+	if len(ctx.stack) > 0 {
+		// There were too many nested actions.
+		next = ctx.stack[0].EndPos
+		ctx.stack = ctx.stack[:0]
+	}
 
 	return next
 }
-- 
2.43.0


From 5d0d52825af3da735697e6b9045f738e15fd1a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:58 +0000
Subject: [PATCH 24/74] fix: GlyphWidth panics for glyph IDs outside the font

---
 font.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index 33e4a40..efac9f7 100644
--- a/font.go
+++ b/font.go
@@ -263,7 +263,7 @@ func (f *Font) Widths() []float64 {
 		}
 		return widths
 	case *glyf.Outlines:
-		for i := range widths {
+		for i := range min(len(widths), len(outlines.Widths)) {
 			widths[i] = float64(outlines.Widths[i])
 		}
 		return widths
@@ -347,13 +347,16 @@ func (f *Font) GlyphBBoxes() []funit.Rect16 {
 }
 
 // GlyphWidth returns the advance width of the glyph with the given glyph ID,
-// in font design units.
+// in font design units.  The width is 0 for glyphs which are not in the font.
 func (f *Font) GlyphWidth(gid glyph.ID) float64 {
 	switch f := f.Outlines.(type) {
 	case *cff.Outlines:
+		if int(gid) >= len(f.Glyphs) {
+			return 0
+		}
 		return f.Glyphs[gid].Width
 	case *glyf.Outlines:
-		if f.Widths == nil {
+		if int(gid) >= len(f.Widths) {
 			return 0
 		}
 		return float64(f.Widths[gid])
@@ -363,9 +366,13 @@ func (f *Font) GlyphWidth(gid glyph.ID) float64 {
 }
 
 // GlyphWidthPDF returns the advance width in PDF glyph space units.
+// The width is 0 for glyphs which are not in the font.
 func (f *Font) GlyphWidthPDF(gid glyph.ID) float64 {
 	switch o := f.Outlines.(type) {
 	case *cff.Outlines:
+		if int(gid) >= len(o.Glyphs) {
+			return 0
+		}
 		var fm matrix.Matrix
 		if o.IsCIDKeyed() {
 			fm = o.FontMatrices[o.FDSelect(gid)].Mul(f.FontMatrix)
@@ -381,7 +388,7 @@ func (f *Font) GlyphWidthPDF(gid glyph.ID) float64 {
 		return o.Glyphs[gid].Width * (q * 1000)
 
 	case *glyf.Outlines:
-		if o.Widths == nil {
+		if int(gid) >= len(o.Widths) {
 			return 0
 		}
 		return float64(o.Widths[gid]) / (float64(f.UnitsPerEm) / 1000)
-- 
2.43.0


From 1d540abfcc667aabc62aa7b443fb317162ce7a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:58 +0000
Subject: [PATCH 25/74] fix: FindLookups depends on the map iteration order

---
 opentype/gtab/lookup.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index 7f7561e..76f2f02 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -19,6 +19,7 @@ package gtab
 import (
 	"errors"
 	"sort"
+	"strings"
 
 	"golang.org/x/text/language"
 	"seehuhn.de/go/sfnt/parser"
@@ -677,8 +678,17 @@ func (info *Info) FindLookups(lang language.Tag, includeFeature map[string]bool)
 	for tag := range info.ScriptList {
 		tags = append(tags, tag)
 	}
-	// TODO(voss): make sure a sensible default comes first.
-	//     Maybe this could be based on the number of features supported?
+	// The matcher uses the first tag as the default, and to break ties.
+	// Make sure that the default script comes first, if it is present, and
+	// that the result does not depend on the map iteration order.
+	sort.Slice(tags, func(i, j int) bool {
+		si, sj := tags[i].String(), tags[j].String()
+		di, dj := strings.HasPrefix(si, "und-Zzzz"), strings.HasPrefix(sj, "und-Zzzz")
+		if di != dj {
+			return di
+		}
+		return si < sj
+	})
 
 	matcher := language.NewMatcher(tags)
 	_, index, _ := matcher.Match(lang)
-- 
2.43.0


From d6068182b0b80fe2f0243b94d15107ed7d2e7030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:08 +0000
Subject: [PATCH 26/74] fix: cff: do not accumulate rounding errors over stem
 hints

The differences between stem edges are rounded to 16.16 fixed point numbers
when they are encoded.  Each difference must be taken from the edge position
the decoder will see, otherwise rounding errors add up along the list of stems.
---
 cff/t2encode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cff/t2encode.go b/cff/t2encode.go
index e803fd9..c16ea98 100644
--- a/cff/t2encode.go
+++ b/cff/t2encode.go
@@ -72,8 +72,9 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 			stems = stems[2*k:]
 			prev := 0.0
 			for _, x := range chunk {
-				header = append(header, encodeNumber(x-prev).Code)
-				prev = x
+				dx := encodeNumber(x - prev)
+				header = append(header, dx.Code)
+				prev += dx.Val
 			}
 
 			canOmitVStem := (i == 1 &&
-- 
2.43.0


From 9b585cf4daf0d63d3ebc511092dfd06465fb1ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:41 +0000
Subject: [PATCH 27/74] fix: cff: refuse numbers which cannot be encoded in a
 charstring

Differences outside the range of 16.16 fixed point numbers were silently
replaced by unrelated values.  Writing such a glyph is now an error.
---
 cff/t2encode.go | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/cff/t2encode.go b/cff/t2encode.go
index c16ea98..753a3a5 100644
--- a/cff/t2encode.go
+++ b/cff/t2encode.go
@@ -33,6 +33,9 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 	w := g.Width
 	if w != defaultWidth {
 		x := encodeNumber(w - nominalWidth)
+		if x.Code == nil {
+			return nil, errNumberRange
+		}
 		header = append(header, x.Code)
 	}
 
@@ -73,6 +76,9 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 			prev := 0.0
 			for _, x := range chunk {
 				dx := encodeNumber(x - prev)
+				if dx.Code == nil {
+					return nil, errNumberRange
+				}
 				header = append(header, dx.Code)
 				prev += dx.Val
 			}
@@ -88,7 +94,10 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 		}
 	}
 
-	data := encodePaths(g.Cmds)
+	data, err := encodePaths(g.Cmds)
+	if err != nil {
+		return nil, err
+	}
 
 	k := 0
 	for _, b := range header {
@@ -108,10 +117,17 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 	return code, nil
 }
 
-func encodePaths(commands []GlyphOp) [][]byte {
+func encodePaths(commands []GlyphOp) ([][]byte, error) {
 	var res [][]byte
 
 	cmds := encodeArgs(commands)
+	for _, cmd := range cmds {
+		for _, arg := range cmd.Args {
+			if arg.Code == nil {
+				return nil, errNumberRange
+			}
+		}
+	}
 
 	for len(cmds) > 0 {
 		switch cmds[0].Op {
@@ -149,7 +165,7 @@ func encodePaths(commands []GlyphOp) [][]byte {
 	}
 	res = append(res, t2endchar.Bytes())
 
-	return res
+	return res, nil
 }
 
 func encodeArgs(cmds []GlyphOp) []enCmd {
@@ -484,19 +500,32 @@ func (x encodedNumber) String() string {
 	return fmt.Sprintf("%g (% x)", x.Val, x.Code)
 }
 
+// errNumberRange is returned for glyphs which contain coordinates (or widths)
+// so far apart that the difference cannot be represented in a charstring.
+var errNumberRange = errors.New("number too large for Type 2 charstring")
+
 // encodeNumber encodes the given number into a CFF encoding.
+// If x is outside the range of 16.16 fixed point numbers, the returned
+// Code is nil.
 func encodeNumber(x float64) encodedNumber {
 	var code []byte
 
 	// TODO(voss): consider using t2dup here.
 	// TODO(voss): also consider fractions of two one-byte integers?
 
-	x16 := funit.Int16(x)
+	var x16 funit.Int16
+	if x >= -32768 && x < 32768 {
+		x16 = funit.Int16(x)
+	}
 	if math.Abs(float64(x16)-x) <= 0.5/65536 {
 		code = encodeInt(x16)
 		x = float64(x16)
 	} else {
-		x32 := int32(math.Round(x * 65536))
+		y := math.Round(x * 65536)
+		if !(y >= math.MinInt32 && y <= math.MaxInt32) {
+			return encodedNumber{Val: x}
+		}
+		x32 := int32(y)
 		code = []byte{255, byte(x32 >> 24), byte(x32 >> 16), byte(x32 >> 8), byte(x32)}
 		x = float64(x32) / 65536
 	}
-- 
2.43.0


From d94ba5d0b518a196449c34cb67ebd92526aa0571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:34 +0000
Subject: [PATCH 28/74] fix: cff: choose default and nominal widths which can
 be stored

The values were truncated to integers when written to the private dictionary
although fractional values were used to encode the glyph widths, and
nominalWidthX was infinite when all glyphs have the same width.  Now both
values are integers, chosen so that the differences can be encoded.
---
 cff/write.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/cff/write.go b/cff/write.go
index 8a83315..9c7e386 100644
--- a/cff/write.go
+++ b/cff/write.go
@@ -238,20 +238,16 @@ func (f *Font) Write(w io.Writer) error {
 	return nil
 }
 
+// selectWidths chooses the values for defaultWidthX and nominalWidthX.
+// Both values are integers, so that they can be stored in the private
+// dictionary without loss of precision.
 func (f *Font) selectWidths() (float64, float64) {
-	numGlyphs := int32(len(f.Glyphs))
-	if numGlyphs == 0 {
-		return 0, 0
-	} else if numGlyphs == 1 {
-		return f.Glyphs[0].Width, f.Glyphs[0].Width
-	}
-
 	widthHist := make(map[float64]int32)
 	var mostFrequentCount int32
 	var defaultWidth float64
 	for _, glyph := range f.Glyphs {
 		w := glyph.Width
-		if math.Abs(w) > 32767 {
+		if math.Abs(w) > 32767 || w != math.Trunc(w) {
 			continue
 		}
 		widthHist[w]++
@@ -263,6 +259,7 @@ func (f *Font) selectWidths() (float64, float64) {
 
 	// TODO(voss): the choice of nominalWidth can be improved
 	var sum float64
+	var count int
 	var minWidth float64 = math.Inf(+1)
 	var maxWidth float64 = math.Inf(-1)
 	for _, glyph := range f.Glyphs {
@@ -271,6 +268,7 @@ func (f *Font) selectWidths() (float64, float64) {
 			continue
 		}
 		sum += w
+		count++
 		if w < minWidth {
 			minWidth = w
 		}
@@ -278,12 +276,19 @@ func (f *Font) selectWidths() (float64, float64) {
 			maxWidth = w
 		}
 	}
-	nominalWidth := math.Round(sum / float64(numGlyphs))
+	if count == 0 {
+		return defaultWidth, defaultWidth
+	}
+	nominalWidth := math.Round(sum / float64(len(f.Glyphs)))
 	if nominalWidth < minWidth+107 {
-		nominalWidth = minWidth + 107
+		nominalWidth = math.Floor(minWidth) + 107
 	} else if nominalWidth > maxWidth-107 {
-		nominalWidth = maxWidth - 107
+		nominalWidth = math.Ceil(maxWidth) - 107
 	}
+	// make sure the differences can be encoded, if possible
+	nominalWidth = max(nominalWidth, math.Ceil(maxWidth)-32767)
+	nominalWidth = min(nominalWidth, math.Floor(minWidth)+32768, math.MaxInt32)
+	nominalWidth = max(nominalWidth, math.MinInt32)
 	return defaultWidth, nominalWidth
 }
 
-- 
2.43.0


From 1345d7b7d99d5cf7c0cdac0ee7b1d9a90e17b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:18 +0000
Subject: [PATCH 29/74] fix: cff: allow the full 16.16 range for charstring
 coordinates

Coordinate differences between 32000 and 32768 were replaced by 32000.
---
 cff/t2decode.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 9792159..5ca3936 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -645,14 +645,15 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 	return nil, errIncomplete
 }
 
-// Fix a float64 to a 16.16 fixed point number in the range [-32000, 32000].
+// Fix a float64 to a 16.16 fixed point number.
 func fix(x float64) float64 {
-	if x > 32000 {
-		return 32000
-	} else if x < -32000 {
-		return -32000
+	x = math.Round(x * 65536)
+	if x > math.MaxInt32 {
+		x = math.MaxInt32
+	} else if x < math.MinInt32 {
+		x = math.MinInt32
 	}
-	return math.Round(x*65536) / 65536
+	return x / 65536
 }
 
 func getSubr(subrs cffIndex, biased int) ([]byte, error) {
-- 
2.43.0


From 0736ae3b974fc8dfbfcdd1e5bc93b671d069ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 30/74] fix: cff: correct the end point of the flex1 operator

The last point has the same x (or y) coordinate as the starting point of
the flex, not as the previous control point.
---
 cff/t2decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 5ca3936..4a1bad7 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -300,11 +300,11 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 					if math.Abs(dx) > math.Abs(dy) {
 						rCurveTo(stack[6], stack[7],
 							stack[8], stack[9],
-							extra, 0)
+							extra, -dy)
 					} else {
 						rCurveTo(stack[6], stack[7],
 							stack[8], stack[9],
-							0, extra)
+							-dx, extra)
 					}
 					// fd = 0.5
 				}
-- 
2.43.0


From e0f72c9c3abf860d21c534a94e45a02faadc58bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:16 +0000
Subject: [PATCH 31/74] fix: cff: correct the mul operator in charstrings

The operands are stored as float64 values, not as 16.16 fixed point numbers.
Since products can be larger than the 16.16 range, stems and widths are now
limited to this range in the same way as coordinates are.
---
 cff/t2decode.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 4a1bad7..d58d86d 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -54,7 +54,7 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 			return
 		}
 		if isPresent {
-			res.Width = stack[0] + info.nominalWidth
+			res.Width = fix(stack[0]) + info.nominalWidth
 			copy(stack, stack[1:])
 			stack = stack[:len(stack)-1]
 		}
@@ -346,8 +346,8 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				setGlyphWidth(len(stack)%2 == 1)
 				var prev float64
 				for k := 0; k+1 < len(stack); k += 2 {
-					a := prev + stack[k]
-					b := a + stack[k+1]
+					a := prev + fix(stack[k])
+					b := a + fix(stack[k+1])
 					res.HStem = append(res.HStem, a, b)
 					prev = b
 				}
@@ -363,8 +363,8 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				setGlyphWidth(len(stack)%2 == 1)
 				var prev float64
 				for k := 0; k+1 < len(stack); k += 2 {
-					a := prev + stack[k]
-					b := a + stack[k+1]
+					a := prev + fix(stack[k])
+					b := a + fix(stack[k+1])
 					res.VStem = append(res.VStem, a, b)
 					prev = b
 				}
@@ -385,8 +385,8 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				// need not be included."
 				var prev float64
 				for k := 0; k+1 < len(stack); k += 2 {
-					a := prev + stack[k]
-					b := a + stack[k+1]
+					a := prev + fix(stack[k])
+					b := a + fix(stack[k+1])
 					res.VStem = append(res.VStem, a, b)
 					prev = b
 				}
@@ -465,7 +465,7 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				if k < 0 {
 					return nil, errStackUnderflow
 				}
-				stack[k] = float64(int64(stack[k]) * int64(stack[k+1]) >> 16)
+				stack[k] *= stack[k+1]
 				stack = stack[:k+1]
 			case t2sqrt:
 				k := len(stack) - 1
-- 
2.43.0


From 6f0ffff8e97c3a939116cf0b8bfc59ebf09d25fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:17 +0000
Subject: [PATCH 32/74] fix: cff: accept the roll operator with zero elements

---
 cff/t2decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index d58d86d..f5d4162 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -509,10 +509,12 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				}
 				n := int(stack[k])
 				j := int(stack[k+1])
-				if n <= 0 || n > k {
+				if n < 0 || n > k {
 					return nil, errors.New("invalid roll count")
 				}
-				roll(stack[k-n:k], j)
+				if n > 0 {
+					roll(stack[k-n:k], j)
+				}
 				stack = stack[:k]
 			case t2dup:
 				k := len(stack) - 1
-- 
2.43.0


From ff08214903504a3c93668b9a4f2919e4ced1cfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:18 +0000
Subject: [PATCH 33/74] fix: cff: reject path operators with too few operands

A stack underflow is an error; before, such operators were ignored.
---
 cff/t2decode.go | 121 +++++++++++++++++++++++++++++-------------------
 1 file changed, 73 insertions(+), 48 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index f5d4162..8116abb 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -170,26 +170,32 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 			switch op {
 			case t2rmoveto:
 				setGlyphWidth(len(stack) > 2)
-				if len(stack) >= 2 {
-					rMoveTo(stack[0], stack[1])
+				if len(stack) < 2 {
+					return nil, errStackUnderflow
 				}
+				rMoveTo(stack[0], stack[1])
 				clearStack()
 
 			case t2hmoveto:
 				setGlyphWidth(len(stack) > 1)
-				if len(stack) >= 1 {
-					rMoveTo(stack[0], 0)
+				if len(stack) < 1 {
+					return nil, errStackUnderflow
 				}
+				rMoveTo(stack[0], 0)
 				clearStack()
 
 			case t2vmoveto:
 				setGlyphWidth(len(stack) > 1)
-				if len(stack) >= 1 {
-					rMoveTo(0, stack[0])
+				if len(stack) < 1 {
+					return nil, errStackUnderflow
 				}
+				rMoveTo(0, stack[0])
 				clearStack()
 
 			case t2rlineto:
+				if len(stack) < 2 {
+					return nil, errStackUnderflow
+				}
 				pos := 0
 				for pos+1 < len(stack) {
 					rLineTo(stack[pos], stack[pos+1])
@@ -198,6 +204,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2hlineto, t2vlineto:
+				if len(stack) < 1 {
+					return nil, errStackUnderflow
+				}
 				horizontal := op == t2hlineto
 				for _, z := range stack {
 					if horizontal {
@@ -210,6 +219,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2rrcurveto, t2rcurveline, t2rlinecurve:
+				if len(stack) < 6 || op != t2rrcurveto && len(stack) < 8 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				for op == t2rlinecurve && len(tmp) >= 8 {
 					rLineTo(tmp[0], tmp[1])
@@ -227,6 +239,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2hhcurveto:
+				if len(stack) < 4 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				var dy1 float64
 				if len(tmp)%4 != 0 {
@@ -242,6 +257,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2vvcurveto:
+				if len(stack) < 4 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				var dx1 float64
 				if len(tmp)%4 != 0 {
@@ -257,6 +275,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2hvcurveto, t2vhcurveto:
+				if len(stack) < 4 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				horizontal := op == t2hvcurveto
 				for len(tmp) >= 4 {
@@ -279,58 +300,62 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2flex:
-				if len(stack) >= 13 {
-					rCurveTo(stack[0], stack[1],
-						stack[2], stack[3],
-						stack[4], stack[5])
-					rCurveTo(stack[6], stack[7],
-						stack[8], stack[9],
-						stack[10], stack[11])
-					// fd = stack[12] / 100
+				if len(stack) < 13 {
+					return nil, errStackUnderflow
 				}
+				rCurveTo(stack[0], stack[1],
+					stack[2], stack[3],
+					stack[4], stack[5])
+				rCurveTo(stack[6], stack[7],
+					stack[8], stack[9],
+					stack[10], stack[11])
+				// fd = stack[12] / 100
 				clearStack()
 			case t2flex1:
-				if len(stack) >= 11 {
-					rCurveTo(stack[0], stack[1],
-						stack[2], stack[3],
-						stack[4], stack[5])
-					extra := stack[10]
-					dx := stack[0] + stack[2] + stack[4] + stack[6] + stack[8]
-					dy := stack[1] + stack[3] + stack[5] + stack[7] + stack[9]
-					if math.Abs(dx) > math.Abs(dy) {
-						rCurveTo(stack[6], stack[7],
-							stack[8], stack[9],
-							extra, -dy)
-					} else {
-						rCurveTo(stack[6], stack[7],
-							stack[8], stack[9],
-							-dx, extra)
-					}
-					// fd = 0.5
+				if len(stack) < 11 {
+					return nil, errStackUnderflow
 				}
+				rCurveTo(stack[0], stack[1],
+					stack[2], stack[3],
+					stack[4], stack[5])
+				extra := stack[10]
+				dx := stack[0] + stack[2] + stack[4] + stack[6] + stack[8]
+				dy := stack[1] + stack[3] + stack[5] + stack[7] + stack[9]
+				if math.Abs(dx) > math.Abs(dy) {
+					rCurveTo(stack[6], stack[7],
+						stack[8], stack[9],
+						extra, -dy)
+				} else {
+					rCurveTo(stack[6], stack[7],
+						stack[8], stack[9],
+						-dx, extra)
+				}
+				// fd = 0.5
 				clearStack()
 			case t2hflex:
-				if len(stack) >= 7 {
-					rCurveTo(stack[0], 0,
-						stack[1], stack[2],
-						stack[3], 0)
-					rCurveTo(stack[4], 0,
-						stack[5], -stack[2],
-						stack[6], 0)
-					// fd = 0.5
+				if len(stack) < 7 {
+					return nil, errStackUnderflow
 				}
+				rCurveTo(stack[0], 0,
+					stack[1], stack[2],
+					stack[3], 0)
+				rCurveTo(stack[4], 0,
+					stack[5], -stack[2],
+					stack[6], 0)
+				// fd = 0.5
 				clearStack()
 			case t2hflex1:
-				if len(stack) >= 9 {
-					rCurveTo(stack[0], stack[1],
-						stack[2], stack[3],
-						stack[4], 0)
-					dy := stack[1] + stack[3] + stack[7]
-					rCurveTo(stack[5], 0,
-						stack[6], stack[7],
-						stack[8], -dy)
-					// fd = 0.5
+				if len(stack) < 9 {
+					return nil, errStackUnderflow
 				}
+				rCurveTo(stack[0], stack[1],
+					stack[2], stack[3],
+					stack[4], 0)
+				dy := stack[1] + stack[3] + stack[7]
+				rCurveTo(stack[5], 0,
+					stack[6], stack[7],
+					stack[8], -dy)
+				// fd = 0.5
 				clearStack()
 
 			case t2dotsection: // deprecated
-- 
2.43.0


From 64c85ca91eb290af334f3866f34a932ccb0dede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:55 +0000
Subject: [PATCH 34/74] fix: cff: do not drop font matrices close to the
 default

---
 cff/dict.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cff/dict.go b/cff/dict.go
index 76c3194..b623c29 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -317,6 +317,12 @@ func encodeFloat(x float64) []byte {
 	return out
 }
 
+// sameReal returns true if a and b have the same representation as a real
+// number in a DICT.
+func sameReal(a, b float64) bool {
+	return bytes.Equal(encodeFloat(a), encodeFloat(b))
+}
+
 func itoaBinary(x int) []byte {
 	var digits []byte
 	for x > 0 {
@@ -443,7 +449,7 @@ func (d cffDict) setFontMatrix(op dictOp, fm matrix.Matrix, isCIDKeyed bool) {
 		} else {
 			def = defaultFontMatrix[i]
 		}
-		if math.Abs(xi-def) > 1e-5 {
+		if !sameReal(xi, def) {
 			needed = true
 			break
 		}
-- 
2.43.0


From 0470420947698732f673fec528c72a9df7644d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:55 +0000
Subject: [PATCH 35/74] fix: cff: accept integer operands in font matrices

---
 cff/dict.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index b623c29..96a9588 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -413,14 +413,17 @@ func (d cffDict) getFontMatrix(op dictOp, isCIDKeyed bool) (res matrix.Matrix) {
 	}
 
 	for i, x := range xx {
-		xi, ok := x.(float64)
-		if !ok {
+		switch x := x.(type) {
+		case int32:
+			res[i] = float64(x)
+		case float64:
+			res[i] = x
+		default:
 			if isCIDKeyed {
 				return matrix.Identity
 			}
 			return defaultFontMatrix
 		}
-		res[i] = xi
 	}
 
 	return res
-- 
2.43.0


From d53382f43b5919407600ca517719b2c9495b9e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:55 +0000
Subject: [PATCH 36/74] fix: cff: avoid integer overflow when encoding delta
 arrays

---
 cff/dict.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cff/dict.go b/cff/dict.go
index 96a9588..c30a396 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -437,7 +437,7 @@ func (d cffDict) setDeltaF16(op dictOp, val []funit.Int16) {
 	res := make([]interface{}, len(val))
 	var prev funit.Int16
 	for i, x := range val {
-		res[i] = int32(x - prev)
+		res[i] = int32(x) - int32(prev)
 		prev = x
 	}
 	d[op] = res
-- 
2.43.0


From 4fdff9c17a001460a186b0460bb2185fc45b24bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:55 +0000
Subject: [PATCH 37/74] fix: cff: do not drop BlueScale values close to the
 default

---
 cff/font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cff/font.go b/cff/font.go
index 81c45d1..1680632 100644
--- a/cff/font.go
+++ b/cff/font.go
@@ -129,7 +129,7 @@ func (f *Font) makePrivateDict(idx int, defaultWidth, nominalWidth float64) cffD
 
 	privateDict.setDeltaF16(opBlueValues, private.BlueValues)
 	privateDict.setDeltaF16(opOtherBlues, private.OtherBlues)
-	if math.Abs(private.BlueScale-defaultBlueScale) > 1e-6 {
+	if !sameReal(private.BlueScale, defaultBlueScale) {
 		privateDict[opBlueScale] = []interface{}{private.BlueScale}
 	}
 	if private.BlueShift != defaultBlueShift {
-- 
2.43.0


From fb795c52e3853f18de8f68c9c8ac30f9274225f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:55 +0000
Subject: [PATCH 38/74] fix: cff: avoid infinite loop when encoding very small
 numbers

---
 cff/dict.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cff/dict.go b/cff/dict.go
index c30a396..f5ee83c 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -241,7 +241,9 @@ func decodeFloat(buf []byte) ([]byte, float64, error) {
 }
 
 func encodeFloat(x float64) []byte {
-	if x == 0 || math.IsNaN(x) || math.IsInf(x, 0) {
+	// Numbers which are too small for the algorithm below (subnormal
+	// numbers in particular) are rounded to zero, like in decodeFloat.
+	if math.Abs(x) < 1e-300 || math.IsNaN(x) || math.IsInf(x, 0) {
 		return []byte{0x0f}
 	}
 
-- 
2.43.0


From c69e711e9ba23e73b6e94158985a3170ade388cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:55 +0000
Subject: [PATCH 39/74] fix: cff: keep the fractional part of underline
 position and thickness

---
 cff/dict.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index f5ee83c..a0d48ad 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -516,10 +516,10 @@ func makeTopDict(info *type1.FontInfo) cffDict {
 		topDict[opItalicAngle] = []interface{}{info.ItalicAngle}
 	}
 	if info.UnderlinePosition != defaultUnderlinePosition {
-		topDict[opUnderlinePosition] = []interface{}{int32(info.UnderlinePosition)}
+		topDict[opUnderlinePosition] = []interface{}{dictNumber(float64(info.UnderlinePosition))}
 	}
 	if info.UnderlineThickness != defaultUnderlineThickness {
-		topDict[opUnderlineThickness] = []interface{}{int32(info.UnderlineThickness)}
+		topDict[opUnderlineThickness] = []interface{}{dictNumber(float64(info.UnderlineThickness))}
 	}
 	// if info.IsOutlined {
 	// 	topDict[opPaintType] = []interface{}{int32(2)} // per font
@@ -528,6 +528,15 @@ func makeTopDict(info *type1.FontInfo) cffDict {
 	return topDict
 }
 
+// dictNumber returns x in the form of a DICT operand.  Integers are
+// represented exactly, all other numbers are written as reals.
+func dictNumber(x float64) interface{} {
+	if i := int32(x); float64(i) == x {
+		return i
+	}
+	return x
+}
+
 type privateInfo struct {
 	private      *type1.PrivateDict
 	subrs        cffIndex
-- 
2.43.0


From 262ec20bfb9ef9d9e2f6b2a8e7ae613fdbb5f7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:30 +0000
Subject: [PATCH 40/74] fix: name: distinguish the two Windows language IDs for
 Spanish

---
 name/locale.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/name/locale.go b/name/locale.go
index 51ba707..08f7176 100644
--- a/name/locale.go
+++ b/name/locale.go
@@ -319,7 +319,6 @@ var msBCP = map[uint16]string{
 	0x280a: "es-PE",       // Spanish, Peru
 	0x500a: "es-PR",       // Spanish, Puerto Rico
 	0x0c0a: "es-ES",       // Spanish (Modern Sort), Spain
-	0x040a: "es-ES",       // Spanish (Traditional Sort), Spain
 	0x540a: "es-US",       // Spanish, United States
 	0x380a: "es-UY",       // Spanish, Uruguay
 	0x200a: "es-VE",       // Spanish, Venezuela
@@ -347,4 +346,7 @@ var msBCP = map[uint16]string{
 	0x0485: "sah-RU",      // Yakut, Russia
 	0x0478: "ii-CN",       // Yi, PRC
 	0x046a: "yo-NG",       // Yoruba, Nigeria
+
+	// This must be different from the tag for 0x0c0a.
+	0x040a: "es-ES-u-co-trad", // Spanish (Traditional Sort), Spain
 }
-- 
2.43.0


From d33ee5c4cab99ee0007643dc1ab2ce42290e8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:30 +0000
Subject: [PATCH 41/74] fix: name: use the correct region code for Morocco

---
 name/locale.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/name/locale.go b/name/locale.go
index 08f7176..a365d8a 100644
--- a/name/locale.go
+++ b/name/locale.go
@@ -154,7 +154,7 @@ var msBCP = map[uint16]string{
 	0x3401: "ar-KW",       // Arabic, Kuwait
 	0x3001: "ar-LB",       // Arabic, Lebanon
 	0x1001: "ar-LY",       // Arabic, Libya
-	0x1801: "ar-MO",       // Arabic, Morocco
+	0x1801: "ar-MA",       // Arabic, Morocco
 	0x2001: "ar-OM",       // Arabic, Oman
 	0x4001: "ar-QA",       // Arabic, Qatar
 	0x0401: "ar-SA",       // Arabic, Saudi Arabia
-- 
2.43.0


From 1ee89c28244aca3ed9702d81d60ede7901bd9a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:30 +0000
Subject: [PATCH 42/74] fix: post: store repeated glyph names only once

---
 post/post.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/post/post.go b/post/post.go
index b042a68..26c90bd 100644
--- a/post/post.go
+++ b/post/post.go
@@ -152,6 +152,7 @@ func (info *Info) Encode() []byte {
 				stringData = append(stringData, byte(len(name)))
 				stringData = append(stringData, name...)
 				numStrings++
+				mac[name] = idx // store repeated names only once
 			}
 			buf.Write([]byte{byte(idx >> 8), byte(idx)})
 		}
-- 
2.43.0


From e71649598e77209f96fadc248bcfb2bb2b8bdc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:50 +0000
Subject: [PATCH 43/74] fix: header: report short writes as errors

---
 header/write.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/header/write.go b/header/write.go
index 4279d85..c36ea04 100644
--- a/header/write.go
+++ b/header/write.go
@@ -98,7 +98,7 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 
 	// write the tables
 	var totalSize int64
-	n, err := w.Write(headerBytes)
+	n, err := writeAll(w, headerBytes)
 	totalSize += int64(n)
 	if err != nil {
 		return totalSize, err
@@ -106,13 +106,13 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	var pad [3]byte
 	for _, name := range tableNames {
 		body := tables[name]
-		n, err := w.Write(body)
+		n, err := writeAll(w, body)
 		totalSize += int64(n)
 		if err != nil {
 			return totalSize, err
 		}
 		if k := n % 4; k != 0 {
-			l, err := w.Write(pad[:4-k])
+			l, err := writeAll(w, pad[:4-k])
 			totalSize += int64(l)
 			if err != nil {
 				return totalSize, err
@@ -122,6 +122,15 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	return totalSize, nil
 }
 
+// writeAll writes p to w, and reports short writes as errors.
+func writeAll(w io.Writer, p []byte) (int, error) {
+	n, err := w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	return n, err
+}
+
 // clearChecksum zeros the checksum field of the head table.
 func clearChecksum(head []byte) {
 	binary.BigEndian.PutUint32(head[8:12], 0)
-- 
2.43.0


From 367ca4c245fa51266c60a3896ff1c020a5b70a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:56 +0000
Subject: [PATCH 44/74] fix: cff: report short writes as errors

---
 cff/write.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cff/write.go b/cff/write.go
index 9c7e386..8bb4e46 100644
--- a/cff/write.go
+++ b/cff/write.go
@@ -229,9 +229,11 @@ func (f *Font) Write(w io.Writer) error {
 	}
 
 	for i := 0; i < numSections; i++ {
-		_, err = w.Write(blobs[i])
+		n, err := w.Write(blobs[i])
 		if err != nil {
 			return err
+		} else if n < len(blobs[i]) {
+			return io.ErrShortWrite
 		}
 	}
 
-- 
2.43.0


From ab3d65b6c586530cfe915f678a0f03d2f1b45e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:49 +0000
Subject: [PATCH 45/74] fix: names: do not overwrite existing glyph names with
 ligature names

---
 names.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/names.go b/names.go
index 80946ee..4e0df8e 100644
--- a/names.go
+++ b/names.go
@@ -158,7 +158,9 @@ func (f *Font) MakeGlyphNames() []string {
 								}
 							}
 							newName := strings.Join(nn, "_")
-							glyphNames[lig.Out] = makeVariant(used, newName)
+							if glyphNames[lig.Out] == "" {
+								glyphNames[lig.Out] = makeVariant(used, newName)
+							}
 						}
 					}
 				}
-- 
2.43.0


From 23b667693ebdd50e89e4d6a109bc0b52198af083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:49 +0000
Subject: [PATCH 46/74] fix: names: make generated glyph names deterministic

---
 names.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/names.go b/names.go
index 4e0df8e..edad1da 100644
--- a/names.go
+++ b/names.go
@@ -113,7 +113,7 @@ func (f *Font) MakeGlyphNames() []string {
 			for _, subtable := range lookup.Subtables {
 				switch subtable := subtable.(type) {
 				case *gtab.Gsub1_1:
-					for origGid := range subtable.Cov {
+					for _, origGid := range subtable.Cov.Glyphs() {
 						newGid := origGid + subtable.Delta
 						if glyphNames[origGid] == "" || glyphNames[newGid] != "" {
 							continue
@@ -121,7 +121,8 @@ func (f *Font) MakeGlyphNames() []string {
 						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
 					}
 				case *gtab.Gsub1_2:
-					for origGid, idx := range subtable.Cov {
+					for _, origGid := range subtable.Cov.Glyphs() {
+						idx := subtable.Cov[origGid]
 						newGid := subtable.SubstituteGlyphIDs[idx]
 						if glyphNames[origGid] == "" || glyphNames[newGid] != "" {
 							continue
@@ -129,7 +130,8 @@ func (f *Font) MakeGlyphNames() []string {
 						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
 					}
 				case *gtab.Gsub3_1:
-					for origGid, idx := range subtable.Cov {
+					for _, origGid := range subtable.Cov.Glyphs() {
+						idx := subtable.Cov[origGid]
 						if glyphNames[origGid] == "" {
 							continue
 						}
@@ -141,7 +143,8 @@ func (f *Font) MakeGlyphNames() []string {
 					}
 				case *gtab.Gsub4_1:
 					var nn []string
-					for origGid, idx := range subtable.Cov {
+					for _, origGid := range subtable.Cov.Glyphs() {
+						idx := subtable.Cov[origGid]
 						name := glyphNames[origGid]
 						if name == "" {
 							continue
-- 
2.43.0


From 7fc0cad3a9ae11056d389494b1353a46f8962c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:49 +0000
Subject: [PATCH 47/74] fix: names: keep the existing names when the list of
 names is short

---
 font.go  | 2 +-
 names.go | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index efac9f7..6a318a9 100644
--- a/font.go
+++ b/font.go
@@ -437,7 +437,7 @@ func (f *Font) GlyphName(gid glyph.ID) string {
 	case *cff.Outlines:
 		return f.Glyphs[gid].Name
 	case *glyf.Outlines:
-		if f.Names == nil {
+		if int(gid) >= len(f.Names) {
 			return ""
 		}
 		return f.Names[gid]
diff --git a/names.go b/names.go
index edad1da..60006fb 100644
--- a/names.go
+++ b/names.go
@@ -64,9 +64,7 @@ func (f *Font) MakeGlyphNames() []string {
 			glyphNames[gid] = g.Name
 		}
 	case *glyf.Outlines:
-		if len(f.Names) == len(f.Glyphs) {
-			copy(glyphNames, f.Names)
-		}
+		copy(glyphNames, f.Names)
 	default:
 		panic("unexpected font type")
 	}
-- 
2.43.0


From 7fb8bdd03f827e796c0cb39fe13ba2e1cc45c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:20 +0000
Subject: [PATCH 48/74] fix: names: ignore characters which map to non-existing
 glyphs

---
 names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/names.go b/names.go
index 60006fb..34aef9b 100644
--- a/names.go
+++ b/names.go
@@ -94,7 +94,7 @@ func (f *Font) MakeGlyphNames() []string {
 		a, b := cmap.CodeRange()
 		for r := a; r <= b; r++ {
 			gid := cmap.Lookup(r)
-			if glyphNames[gid] != "" {
+			if int(gid) >= len(glyphNames) || glyphNames[gid] != "" {
 				// This includes the case of unmapped runes (gid == 0).
 				continue
 			}
-- 
2.43.0


From 6312cbcb2b08c158ec545d240c98787731c3007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:04 +0000
Subject: [PATCH 49/74] fix: subset: point composite glyphs to the correct
 components

---
 subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subset.go b/subset.go
index 13b21d7..6e51b6b 100644
--- a/subset.go
+++ b/subset.go
@@ -472,7 +472,7 @@ func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 			}
 			componendGidNew := glyph.ID(len(s.glyphs))
 			s.glyphs = append(s.glyphs, componentGidOld)
-			s.newGid[oldGid] = componendGidNew
+			s.newGid[componentGidOld] = componendGidNew
 			todo[componentGidOld] = true
 		}
 	}
-- 
2.43.0


From 81242507a4d33c5f3fd639116b21416a6d2da56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:04 +0000
Subject: [PATCH 50/74] fix: subset: allow for short lists of glyph names

---
 subset.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subset.go b/subset.go
index 6e51b6b..4128d35 100644
--- a/subset.go
+++ b/subset.go
@@ -490,7 +490,9 @@ func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 	if oldOutlines.Names != nil {
 		newOutlines.Names = make([]string, len(s.glyphs))
 		for newGid, oldGid := range s.glyphs {
-			newOutlines.Names[newGid] = oldOutlines.Names[oldGid]
+			if int(oldGid) < len(oldOutlines.Names) {
+				newOutlines.Names[newGid] = oldOutlines.Names[oldGid]
+			}
 		}
 	}
 
-- 
2.43.0


From fbd183837de1763b425c409b3ea5575e7a1f7aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:04 +0000
Subject: [PATCH 51/74] fix: subset: do not append to the slice given by the
 caller

---
 subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subset.go b/subset.go
index 4128d35..6357827 100644
--- a/subset.go
+++ b/subset.go
@@ -18,6 +18,7 @@ package sfnt
 
 import (
 	"fmt"
+	"slices"
 
 	"golang.org/x/exp/maps"
 	"seehuhn.de/go/postscript/cid"
@@ -40,7 +41,7 @@ func (f *Font) Subset(glyphs []glyph.ID) *Font {
 	res := f.Clone()
 
 	s := subsetter{
-		glyphs: glyphs,
+		glyphs: slices.Clone(glyphs),
 		newGid: map[glyph.ID]glyph.ID{},
 	}
 	for newgid, oldGid := range glyphs {
-- 
2.43.0


From 1de32371a8f571086bf13de65f63c49cd44d62b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:04 +0000
Subject: [PATCH 52/74] fix: subset: append additional glyphs in a
 deterministic order

---
 subset.go | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/subset.go b/subset.go
index 6357827..830bc7f 100644
--- a/subset.go
+++ b/subset.go
@@ -142,35 +142,39 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 		for _, sOld := range tOld.Subtables {
 			switch sOld := sOld.(type) {
 			case *gtab.Gsub1_1:
-				for gid := range sOld.Cov {
+				for _, gid := range sOld.Cov.Glyphs() {
 					rules = append(rules, rule{
 						in:  []glyph.ID{gid},
 						out: []glyph.ID{gid + sOld.Delta},
 					})
 				}
 			case *gtab.Gsub1_2:
-				for gid, idx := range sOld.Cov {
+				for _, gid := range sOld.Cov.Glyphs() {
+					idx := sOld.Cov[gid]
 					rules = append(rules, rule{
 						in:  []glyph.ID{gid},
 						out: []glyph.ID{sOld.SubstituteGlyphIDs[idx]},
 					})
 				}
 			case *gtab.Gsub2_1:
-				for gid, idx := range sOld.Cov {
+				for _, gid := range sOld.Cov.Glyphs() {
+					idx := sOld.Cov[gid]
 					rules = append(rules, rule{
 						in:  []glyph.ID{gid},
 						out: sOld.Repl[idx],
 					})
 				}
 			case *gtab.Gsub3_1:
-				for gid, idx := range sOld.Cov {
+				for _, gid := range sOld.Cov.Glyphs() {
+					idx := sOld.Cov[gid]
 					rules = append(rules, rule{
 						in:  []glyph.ID{gid},
 						out: sOld.Alternates[idx],
 					})
 				}
 			case *gtab.Gsub4_1:
-				for gid, idx := range sOld.Cov {
+				for _, gid := range sOld.Cov.Glyphs() {
+					idx := sOld.Cov[gid]
 					for _, lig := range sOld.Repl[idx] {
 						in := make([]glyph.ID, 0, len(lig.In)+1)
 						in = append(in, gid)
@@ -460,12 +464,9 @@ func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 		Maxp:   oldOutlines.Maxp,
 	}
 
-	todo := make(map[glyph.ID]bool, len(s.glyphs))
-	for _, oldGid := range s.glyphs {
-		todo[oldGid] = true
-	}
-	for len(todo) > 0 {
-		oldGid := pop(todo)
+	// s.glyphs grows while the loop is running
+	for i := 0; i < len(s.glyphs); i++ {
+		oldGid := s.glyphs[i]
 		cc := oldOutlines.Glyphs[oldGid].Components()
 		for _, componentGidOld := range cc {
 			if _, ok := s.newGid[componentGidOld]; ok {
@@ -474,7 +475,6 @@ func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 			componendGidNew := glyph.ID(len(s.glyphs))
 			s.glyphs = append(s.glyphs, componentGidOld)
 			s.newGid[componentGidOld] = componendGidNew
-			todo[componentGidOld] = true
 		}
 	}
 
@@ -501,11 +501,3 @@ func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 
 	return newOutlines
 }
-
-func pop(todo map[glyph.ID]bool) glyph.ID {
-	for key := range todo {
-		delete(todo, key)
-		return key
-	}
-	panic("empty map")
-}
-- 
2.43.0


From 8d32a31f5d473aa6040aa2a0f8e8f71776b76bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:04 +0000
Subject: [PATCH 53/74] fix: subset: renumber the glyphs in kerning pairs

---
 subset.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/subset.go b/subset.go
index 830bc7f..7fc434c 100644
--- a/subset.go
+++ b/subset.go
@@ -361,13 +361,15 @@ func (s *subsetter) SubsetGpos(old *gtab.Info) *gtab.Info {
 			case gtab.Gpos2_1:
 				sNew := gtab.Gpos2_1{}
 				for pair, adj := range sOld {
-					if _, ok := s.newGid[pair.Left]; !ok {
+					newLeft, ok := s.newGid[pair.Left]
+					if !ok {
 						continue
 					}
-					if _, ok := s.newGid[pair.Right]; !ok {
+					newRight, ok := s.newGid[pair.Right]
+					if !ok {
 						continue
 					}
-					sNew[pair] = adj
+					sNew[glyph.Pair{Left: newLeft, Right: newRight}] = adj
 				}
 				tNew.Subtables[j] = sNew
 			case *gtab.Gpos2_2:
-- 
2.43.0


From 2254af895d5bcbd86f2bbdc3d8a61f3240586b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:04 +0000
Subject: [PATCH 54/74] fix: subset: keep ligatures, with consistent coverage
 tables and lookup indices

---
 subset.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/subset.go b/subset.go
index 7fc434c..9a11e97 100644
--- a/subset.go
+++ b/subset.go
@@ -265,15 +265,16 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 				sNew := &gtab.Gsub1_2{
 					Cov: make(map[glyph.ID]int),
 				}
-				for oldOrig := range sOld.Cov {
-					newFrom, ok := s.newGid[oldOrig]
+				for newFrom, oldOrig := range s.glyphs {
+					if !sOld.Cov[oldOrig] {
+						continue
+					}
+					newTo, ok := s.newGid[oldOrig+sOld.Delta]
 					if !ok {
 						continue
 					}
-
-					newTo := oldOrig + sOld.Delta
-					sNew.Cov[newFrom] = len(sNew.SubstituteGlyphIDs)
-					sNew.SubstituteGlyphIDs = append(sNew.SubstituteGlyphIDs, s.getNewGid(newTo))
+					sNew.Cov[glyph.ID(newFrom)] = len(sNew.SubstituteGlyphIDs)
+					sNew.SubstituteGlyphIDs = append(sNew.SubstituteGlyphIDs, newTo)
 				}
 				if len(sNew.Cov) > 0 {
 					tNew.Subtables = append(tNew.Subtables, sNew)
@@ -285,11 +286,11 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 			case *gtab.Gsub3_1:
 				panic("not implemented")
 			case *gtab.Gsub4_1:
-				sNew := gtab.Gsub4_1{
+				sNew := &gtab.Gsub4_1{
 					Cov: make(coverage.Table),
 				}
-				for oldFirst, idx := range sOld.Cov {
-					newFirst, ok := s.newGid[oldFirst]
+				for newFirst, oldFirst := range s.glyphs {
+					idx, ok := sOld.Cov[oldFirst]
 					if !ok {
 						continue
 					}
@@ -301,20 +302,27 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 								continue ligLoop
 							}
 						}
+						newOut, ok := s.newGid[lig.Out]
+						if !ok {
+							continue
+						}
 						newLig := gtab.Ligature{
 							In:  make([]glyph.ID, len(lig.In)),
-							Out: s.getNewGid(lig.Out),
+							Out: newOut,
 						}
 						for i, oldGID := range lig.In {
-							newLig.In[i] = s.getNewGid(oldGID)
+							newLig.In[i] = s.newGid[oldGID]
 						}
 						ligs = append(ligs, newLig)
 					}
 					if len(ligs) > 0 {
-						sNew.Cov[newFirst] = len(sNew.Repl)
+						sNew.Cov[glyph.ID(newFirst)] = len(sNew.Repl)
 						sNew.Repl = append(sNew.Repl, ligs)
 					}
 				}
+				if len(sNew.Cov) > 0 {
+					tNew.Subtables = append(tNew.Subtables, sNew)
+				}
 			case *gtab.Gsub8_1:
 				panic("not implemented")
 			case *gtab.SeqContext1:
@@ -334,9 +342,9 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 			}
 		}
 
-		if len(tNew.Subtables) > 0 {
-			res.LookupList = append(res.LookupList, tNew)
-		}
+		// Empty lookups are kept, so that the lookup indices in the feature
+		// list stay valid.
+		res.LookupList = append(res.LookupList, tNew)
 	}
 
 	return &res
-- 
2.43.0


From 2eb726c1a11711e4da977ed928f363d943c712fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:04 +0000
Subject: [PATCH 55/74] fix: subset: include the character map

---
 subset.go | 66 +++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/subset.go b/subset.go
index 9a11e97..586d432 100644
--- a/subset.go
+++ b/subset.go
@@ -27,6 +27,7 @@ import (
 	"seehuhn.de/go/sfnt/cmap"
 	"seehuhn.de/go/sfnt/glyf"
 	"seehuhn.de/go/sfnt/glyph"
+	"seehuhn.de/go/sfnt/mac"
 	"seehuhn.de/go/sfnt/opentype/coverage"
 	"seehuhn.de/go/sfnt/opentype/gdef"
 	"seehuhn.de/go/sfnt/opentype/gtab"
@@ -48,19 +49,27 @@ func (f *Font) Subset(glyphs []glyph.ID) *Font {
 		s.newGid[oldGid] = glyph.ID(newgid)
 	}
 
+	s.closeGsub(f.Gsub)
+	if outlines, ok := f.Outlines.(*glyf.Outlines); ok {
+		s.closeGlyf(outlines)
+	}
+	// At this point we have the final list of glyphs.
+
 	if f.CMapTable != nil {
 		res.CMapTable = make(cmap.Table, len(f.CMapTable))
 		for key := range f.CMapTable {
-			c, err := res.CMapTable.Get(key)
+			c, err := f.CMapTable.Get(key)
 			if err != nil {
 				continue
 			}
 			c = s.SubsetCMap(c)
+			if key.PlatformID == 1 {
+				c = toMacRoman(c)
+			}
 			res.CMapTable[key] = c.Encode(key.Language)
 		}
 	}
 	res.Gsub = s.SubsetGsub(f.Gsub)
-	// At this point we have the final list of glyphs.
 	res.Gpos = s.SubsetGpos(f.Gpos)
 	res.Gdef = s.SubsetGdef(f.Gdef)
 
@@ -110,6 +119,17 @@ func (s *subsetter) SubsetCMap(c cmap.Subtable) cmap.Subtable {
 			res[key] = newGid
 		}
 		return res
+	case *cmap.Format0:
+		// The new glyph IDs may not fit into a format 0 subtable.
+		res := cmap.Format4{}
+		for code, oldGid := range c.Data {
+			newGid, ok := s.newGid[glyph.ID(oldGid)]
+			if !ok || newGid == 0 {
+				continue
+			}
+			res[uint16(code)] = newGid
+		}
+		return res
 	case cmap.Format12:
 		res := cmap.Format12{}
 		for key, oldGid := range c {
@@ -125,10 +145,25 @@ func (s *subsetter) SubsetCMap(c cmap.Subtable) cmap.Subtable {
 	}
 }
 
+// toMacRoman converts a subtable which is indexed by runes to a subtable which
+// is indexed by MacRoman character codes.
+func toMacRoman(c cmap.Subtable) cmap.Subtable {
+	res := cmap.Format4{}
+	for code := range 256 {
+		if gid := c.Lookup(mac.DecodeOne(byte(code))); gid != 0 {
+			res[uint16(code)] = gid
+		}
+	}
+	return res
+}
+
+// closeGsub adds all glyphs which can be reached via GSUB rules to the list
+// of glyphs.
+//
 // TODO(voss): This is incomplete.  Finish this!
-func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
+func (s *subsetter) closeGsub(old *gtab.Info) {
 	if old == nil {
-		return nil
+		return
 	}
 
 	// step 1: make a list of all GSUB rules
@@ -248,8 +283,14 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 			}
 		}
 	}
+}
+
+// SubsetGsub creates the new GSUB table, once the list of glyphs is complete.
+func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
+	if old == nil {
+		return nil
+	}
 
-	// step 3: create the new GSUB table
 	res := *old
 	res.LookupList = nil
 	for _, tOld := range old.LookupList {
@@ -468,12 +509,8 @@ func (s *subsetter) SubsetCFF(oldOutlines *cff.Outlines) *cff.Outlines {
 	return newOutlines
 }
 
-func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
-	newOutlines := &glyf.Outlines{
-		Tables: oldOutlines.Tables,
-		Maxp:   oldOutlines.Maxp,
-	}
-
+// closeGlyf adds all components of composite glyphs to the list of glyphs.
+func (s *subsetter) closeGlyf(oldOutlines *glyf.Outlines) {
 	// s.glyphs grows while the loop is running
 	for i := 0; i < len(s.glyphs); i++ {
 		oldGid := s.glyphs[i]
@@ -487,6 +524,13 @@ func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 			s.newGid[componentGidOld] = componendGidNew
 		}
 	}
+}
+
+func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
+	newOutlines := &glyf.Outlines{
+		Tables: oldOutlines.Tables,
+		Maxp:   oldOutlines.Maxp,
+	}
 
 	newOutlines.Glyphs = make([]*glyf.Glyph, len(s.glyphs))
 	for newGid, oldGid := range s.glyphs {
-- 
2.43.0


From 5dbca76d7716bbca566897544264d55596a46a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:22 +0000
Subject: [PATCH 56/74] fix: cff: allow for encodings with gaps in the list of
 encoded glyphs

---
 cff/encoding.go | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/cff/encoding.go b/cff/encoding.go
index e2aee37..3a13c63 100644
--- a/cff/encoding.go
+++ b/cff/encoding.go
@@ -106,11 +106,7 @@ func readEncoding(p *parser.Parser, charset []int32) ([]glyph.ID, error) {
 			if err != nil {
 				return nil, err
 			}
-			gid := lookup[sid]
-			if gid >= currentGid {
-				return nil, invalidSince("invalid encoding supplement")
-			}
-			if gid != 0 {
+			if gid := lookup[sid]; gid != 0 {
 				res[code] = gid
 			}
 		}
@@ -123,12 +119,10 @@ func readEncoding(p *parser.Parser, charset []int32) ([]glyph.ID, error) {
 // The encoding vector is given as a slice of glyph IDs (length 256),
 // where the glyph ID 0 is used to indicate a missing glyph.
 //
-// The encoded glyphs must form a contiguous range starting at glyph ID 1.
-//
 // The glyphNames argument is only used for supplemented encodings, where
-// one or more glyphs have multiple codes.
+// one or more glyphs have multiple codes, or where the encoded glyphs do not
+// form a contiguous range starting at glyph ID 1.
 func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
-	var maxGid glyph.ID
 	codes := map[glyph.ID]uint8{}
 	type suppl struct {
 		code uint8
@@ -145,9 +139,23 @@ func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
 			continue
 		}
 		codes[gid] = c8
-		if gid > maxGid {
-			maxGid = gid
+	}
+
+	// All glyphs after the first gap are listed in the supplement.
+	var maxGid glyph.ID
+	for len(codes) > int(maxGid) {
+		if _, ok := codes[maxGid+1]; !ok {
+			break
 		}
+		maxGid++
+	}
+	for code, gid := range encoding {
+		if gid > maxGid && codes[gid] == uint8(code) {
+			extra = append(extra, suppl{uint8(code), gid})
+		}
+	}
+	if len(extra) > 255 {
+		return nil, invalidSince("too many supplemental encodings")
 	}
 
 	type seg struct {
@@ -159,18 +167,16 @@ func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
 	startGid := glyph.ID(1)
 	startCode := codes[startGid]
 	for gid := glyph.ID(1); gid <= maxGid; gid++ {
-		code, ok := codes[gid]
-		if !ok {
-			msg := fmt.Sprintf("encoded glyphs not contiguous (glyph %d not encoded)", gid)
-			return nil, invalidSince(msg)
-		}
+		code := codes[gid]
 		if int(gid-startGid) != int(code)-int(startCode) {
 			ss = append(ss, seg{startCode, uint8(gid - startGid - 1)})
 			startGid = gid
 			startCode = code
 		}
 	}
-	ss = append(ss, seg{startCode, uint8(maxGid - startGid)})
+	if maxGid > 0 {
+		ss = append(ss, seg{startCode, uint8(maxGid - startGid)})
+	}
 	if len(ss) > 255 {
 		return nil, invalidSince("too many segments")
 	}
-- 
2.43.0


From 076e37b9a9a3a6be25286b41ab539c2adcbd095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:59 +0000
Subject: [PATCH 57/74] fix: ligatures: make the standard ligatures an optional
 feature

The liga feature was marked as required, so that it could not be switched
off by the caller.
---
 ligatures.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ligatures.go b/ligatures.go
index 2497dad..af3fc4b 100644
--- a/ligatures.go
+++ b/ligatures.go
@@ -75,7 +75,7 @@ ligLoop:
 	}
 	gsub := &gtab.Info{
 		ScriptList: map[language.Tag]*gtab.Features{
-			language.MustParse("und-Latn-x-latn"): {Optional: []gtab.FeatureIndex{0}},
+			language.MustParse("und-Latn-x-latn"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}},
 		},
 		FeatureList: []*gtab.Feature{
 			{Tag: "liga", Lookups: []gtab.LookupIndex{0}},
-- 
2.43.0


From 9f5e63cc7d76f529749b0d7026ace0b91413e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:29 +0000
Subject: [PATCH 58/74] fix: limit the work done for overlapping data in font
 files

Subtables, coverage tables, class definitions, charstring subroutines, etc.
can be shared within a font file.  Without a limit, small files could be
used to cause excessive memory use and run time.
---
 cff/dict.go                   |  3 +++
 cff/read.go                   |  3 +++
 cff/t2decode.go               | 25 +++++++++++++++++++++++++
 opentype/classdef/classdef.go |  4 ++++
 opentype/coverage/coverage.go |  3 +++
 opentype/coverage/set.go      |  3 +++
 opentype/gtab/gpos.go         |  3 +++
 parser/parser.go              | 33 ++++++++++++++++++++++++++++++++-
 8 files changed, 76 insertions(+), 1 deletion(-)

diff --git a/cff/dict.go b/cff/dict.go
index a0d48ad..f9f26bb 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -551,6 +551,9 @@ func (d cffDict) readPrivate(p *parser.Parser, strings *cffStrings) (*privateInf
 	if !ok || pdOffs < 4 || pdSize < 0 {
 		return nil, errors.New("cff: missing Private DICT")
 	}
+	if int64(pdSize) > p.Size() {
+		return nil, invalidSince("Private DICT too large")
+	}
 
 	err := p.SeekPos(int64(pdOffs))
 	if err != nil {
diff --git a/cff/read.go b/cff/read.go
index 53da4bf..47b0a3e 100644
--- a/cff/read.go
+++ b/cff/read.go
@@ -137,6 +137,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 
 	ROS, isCIDKeyed := topDict[opROS]
 	var decoders []*decodeInfo
+	budget := 1<<21 + 64*p.Size() // limit for the total complexity of all glyphs
 	if isCIDKeyed {
 		if len(ROS) != 3 {
 			return nil, invalidSince("wrong number of ROS values")
@@ -187,6 +188,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 				gsubr:        gsubrs,
 				defaultWidth: pInfo.defaultWidth,
 				nominalWidth: pInfo.nominalWidth,
+				budget:       &budget,
 			})
 		}
 
@@ -271,6 +273,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 			gsubr:        gsubrs,
 			defaultWidth: pInfo.defaultWidth,
 			nominalWidth: pInfo.nominalWidth,
+			budget:       &budget,
 		})
 	}
 
diff --git a/cff/t2decode.go b/cff/t2decode.go
index 8116abb..51d9f7e 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -27,6 +27,24 @@ type decodeInfo struct {
 	gsubr        cffIndex
 	defaultWidth float64
 	nominalWidth float64
+
+	// budget, if not nil, is the number of charstring bytes which can still
+	// be executed.  This is shared between all glyphs in a font.
+	budget *int64
+}
+
+// charge accounts for the execution of n bytes of charstring code.
+// Since subroutines can be called repeatedly, the length of the
+// code which is executed is not otherwise bounded by the file size.
+func (info *decodeInfo) charge(n int) error {
+	if info.budget == nil {
+		return nil
+	}
+	*info.budget -= int64(n) + 1
+	if *info.budget < 0 {
+		return invalidSince("charstrings too complex")
+	}
+	return nil
 }
 
 type ccStage int
@@ -104,6 +122,10 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 		})
 	}
 
+	if err := info.charge(len(code)); err != nil {
+		return nil, err
+	}
+
 	stage := stageStart
 
 	var storage []float64
@@ -649,6 +671,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				if err != nil {
 					return nil, err
 				}
+				if err := info.charge(len(code)); err != nil {
+					return nil, err
+				}
 
 			case t2return:
 				break opLoop
diff --git a/opentype/classdef/classdef.go b/opentype/classdef/classdef.go
index 192c584..17e557c 100644
--- a/opentype/classdef/classdef.go
+++ b/opentype/classdef/classdef.go
@@ -126,6 +126,10 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 			prevEnd = endGlyphID
 
 			if classValue != 0 {
+				err := p.Charge(int(endGlyphID) - int(startGlyphID) + 1)
+				if err != nil {
+					return nil, err
+				}
 				for j := int(startGlyphID); j <= int(endGlyphID); j++ {
 					res[glyph.ID(j)] = classValue
 				}
diff --git a/opentype/coverage/coverage.go b/opentype/coverage/coverage.go
index e34b1c8..a026523 100644
--- a/opentype/coverage/coverage.go
+++ b/opentype/coverage/coverage.go
@@ -132,6 +132,9 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 					Reason:    "invalid coverage table (format 2)",
 				}
 			}
+			if err := p.Charge(endGlyphID - startGlyphID + 1); err != nil {
+				return nil, err
+			}
 			for gid := startGlyphID; gid <= endGlyphID; gid++ {
 				table[glyph.ID(gid)] = pos
 				pos++
diff --git a/opentype/coverage/set.go b/opentype/coverage/set.go
index c215732..9c1b537 100644
--- a/opentype/coverage/set.go
+++ b/opentype/coverage/set.go
@@ -100,6 +100,9 @@ func ReadSet(p *parser.Parser, pos int64) (Set, error) {
 					Reason:    "invalid coverage table (format 2)",
 				}
 			}
+			if err := p.Charge(endGlyphID - startGlyphID + 1); err != nil {
+				return nil, err
+			}
 			for gid := startGlyphID; gid <= endGlyphID; gid++ {
 				table[glyph.ID(gid)] = true
 				pos++
diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index 231ff56..b1539d4 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -531,6 +531,9 @@ func readGpos2_2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			Reason:    "GPOS2.1 table too large",
 		}
 	}
+	if err := p.Charge(numRecords); err != nil {
+		return nil, err
+	}
 	records := make([]*PairAdjust, numRecords)
 	for i := 0; i < numRecords; i++ {
 		first, err := readValueRecord(p, valueFormat1)
diff --git a/parser/parser.go b/parser/parser.go
index 3b0d6f2..6008cd9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -30,6 +30,8 @@ type Parser struct {
 	from      int64
 	pos, used int
 	lastRead  int
+
+	budget int64 // see the method [Parser.Charge]
 }
 
 // ReadSeekSizer describes the requirements for a reader that can be used
@@ -42,7 +44,8 @@ type ReadSeekSizer interface {
 // New allocates a new Parser.
 func New(r ReadSeekSizer) *Parser {
 	p := &Parser{
-		r: r,
+		r:      r,
+		budget: baseBudget + budgetFactor*max(r.Size(), 0),
 	}
 	err := p.SeekPos(0)
 	if err != nil {
@@ -56,6 +59,31 @@ func (p *Parser) Size() int64 {
 	return p.r.Size()
 }
 
+// Sub-tables in font files are located using offsets, and several offsets can
+// refer to the same data.  The amount of data read by a parser is limited to
+// baseBudget plus budgetFactor times the file size, to avoid excessive memory
+// use and run time for malicious files.
+const (
+	baseBudget   = 1 << 21
+	budgetFactor = 64
+)
+
+var errBudgetExceeded = &InvalidFontError{
+	SubSystem: "sfnt/parser",
+	Reason:    "too much overlapping or repeated data",
+}
+
+// Charge must be called before n values are generated from compressed data
+// in the file.  The method returns an error, if the total amount of data
+// read via the parser is out of proportion to the size of the file.
+func (p *Parser) Charge(n int) error {
+	p.budget -= int64(n)
+	if p.budget < 0 {
+		return errBudgetExceeded
+	}
+	return nil
+}
+
 // Pos returns the current reading position within the current region.
 func (p *Parser) Pos() int64 {
 	return p.from + int64(p.pos)
@@ -170,6 +198,9 @@ func (p *Parser) ReadBytes(n int) ([]byte, error) {
 	} else if n > bufferSize {
 		panic("buffer size exceeded")
 	}
+	if err := p.Charge(n); err != nil {
+		return nil, err
+	}
 
 	for p.pos+n > p.used {
 		if len(p.buf) == 0 {
-- 
2.43.0


From 1c7ffde31003b59bb7f168b7d577675a61248b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:08 +0000
Subject: [PATCH 59/74] fix: accept empty glyf tables when reading fonts

---
 read.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index eff0cae..3b8773d 100644
--- a/read.go
+++ b/read.go
@@ -74,7 +74,9 @@ func Read(r io.Reader) (*Font, error) {
 		return nil, fmt.Errorf("sfnt header: %w", err)
 	}
 
-	if !(dir.Has("glyf", "loca") || dir.Has("CFF ")) {
+	// The "glyf" table is empty, if all glyphs in the font are blank.
+	_, hasGlyf := dir.Toc["glyf"]
+	if !(hasGlyf && dir.Has("loca") || dir.Has("CFF ")) {
 		if dir.Has("CFF2") {
 			return nil, &parser.NotSupportedError{
 				SubSystem: "sfnt",
-- 
2.43.0


From 010f34b6a4e85a1566d3c35733828fa0cf23e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:08 +0000
Subject: [PATCH 60/74] fix: make fonts without hmtx table re-readable
 unchanged

---
 read.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/read.go b/read.go
index 3b8773d..e2b79df 100644
--- a/read.go
+++ b/read.go
@@ -225,6 +225,12 @@ func Read(r io.Reader) (*Font, error) {
 			for i, w := range hmtxInfo.Widths {
 				cffInfo.Glyphs[i].Width = float64(w)
 			}
+		} else {
+			// Use the widths from the CFF table, rounded so that the values
+			// can be exactly represented in the hmtx table.
+			for _, g := range cffInfo.Glyphs {
+				g.Width = roundInt16(g.Width)
+			}
 		}
 	case header.ScalerTypeTrueType, header.ScalerTypeApple:
 		if headInfo == nil {
@@ -271,6 +277,8 @@ func Read(r io.Reader) (*Font, error) {
 		var widths []funit.Int16
 		if hmtxInfo != nil && len(hmtxInfo.Widths) > 0 {
 			widths = hmtxInfo.Widths
+		} else {
+			widths = make([]funit.Int16, len(ttGlyphs))
 		}
 
 		var names []string
@@ -524,6 +532,11 @@ func Read(r io.Reader) (*Font, error) {
 	return info, nil
 }
 
+// roundInt16 rounds x to the nearest 16-bit integer.
+func roundInt16(x float64) float64 {
+	return max(math.MinInt16, min(math.Round(x), math.MaxInt16))
+}
+
 func getNameTableVersion(t *name.Table) (head.Version, bool) {
 	if t == nil {
 		return 0, false
-- 
2.43.0


From 557a6db6f9150655a92027a7ea81976fcf746062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:09 +0000
Subject: [PATCH 61/74] fix: make italic angle and underline values from CFF
 representable in post table

---
 read.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index e2b79df..2d757a6 100644
--- a/read.go
+++ b/read.go
@@ -397,13 +397,16 @@ func Read(r io.Reader) (*Font, error) {
 	// Round the italic angle so that the value can be exactly represented
 	// in the post table.
 	info.ItalicAngle = math.Round(info.ItalicAngle*65536) / 65536
+	info.ItalicAngle = max(-32768, min(info.ItalicAngle, 32767))
 
 	if postInfo != nil {
 		info.UnderlinePosition = funit.Float64(postInfo.UnderlinePosition)
 		info.UnderlineThickness = funit.Float64(postInfo.UnderlineThickness)
 	} else if fontInfo != nil {
-		info.UnderlinePosition = fontInfo.UnderlinePosition
-		info.UnderlineThickness = fontInfo.UnderlineThickness
+		// Round the values so that they can be exactly represented in the post
+		// table.
+		info.UnderlinePosition = funit.Float64(roundInt16(float64(fontInfo.UnderlinePosition)))
+		info.UnderlineThickness = funit.Float64(roundInt16(float64(fontInfo.UnderlineThickness)))
 	}
 
 	// Currently we set IsItalic if there is any evidence of the font being
-- 
2.43.0


From 25e6c613b2f30aca15b60c6218f011597a94a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:09 +0000
Subject: [PATCH 62/74] fix: do not infer IsBold from the subfamily name when
 an OS/2 table is present

---
 read.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 2d757a6..63f39b5 100644
--- a/read.go
+++ b/read.go
@@ -432,8 +432,10 @@ func Read(r io.Reader) (*Font, error) {
 	} else if headInfo != nil {
 		info.IsBold = headInfo.IsBold
 	}
+	// If there is an "OS/2" table, this determines the flag: the subfamily name
+	// may also refer to the weight class of a regular font.
 	// TODO(voss): we could also check info.Weight == font.WeightBold
-	if nameTable != nil &&
+	if os2Info == nil && nameTable != nil &&
 		strings.Contains(nameTable.Subfamily, "Bold") &&
 		!strings.Contains(nameTable.Subfamily, "Semi Bold") &&
 		!strings.Contains(nameTable.Subfamily, "Extra Bold") {
-- 
2.43.0


From 6a5f4cf6d1a5bc2e7c157aeffa56c2e671f2f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:09 +0000
Subject: [PATCH 63/74] fix: use the canonical default script tag for legacy
 kern tables

---
 read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 63f39b5..de67bfa 100644
--- a/read.go
+++ b/read.go
@@ -520,7 +520,7 @@ func Read(r io.Reader) (*Font, error) {
 		}
 		info.Gpos = &gtab.Info{
 			ScriptList: map[language.Tag]*gtab.Features{
-				language.MustParse("und-Zzzz"): {Required: 0, Optional: []gtab.FeatureIndex{}},
+				language.MustParse("und-Zzzz-x-dflt"): {Required: 0, Optional: []gtab.FeatureIndex{}},
 			},
 			FeatureList: []*gtab.Feature{
 				{Tag: "kern", Lookups: []gtab.LookupIndex{0}},
-- 
2.43.0


From bfd2113a47db67b6cc81bcabf1222f565a7b1dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:09 +0000
Subject: [PATCH 64/74] fix: round version numbers read from strings

---
 read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index de67bfa..37bd652 100644
--- a/read.go
+++ b/read.go
@@ -550,7 +550,7 @@ func getNameTableVersion(t *name.Table) (head.Version, bool) {
 	if err != nil {
 		return 0, false
 	}
-	return v, true
+	return v.Round(), true
 }
 
 func getCFFVersion(fontInfo *type1.FontInfo) (head.Version, bool) {
@@ -561,5 +561,5 @@ func getCFFVersion(fontInfo *type1.FontInfo) (head.Version, bool) {
 	if err != nil {
 		return 0, false
 	}
-	return v, true
+	return v.Round(), true
 }
-- 
2.43.0


From 129e043ad98b8b5fa8f03c06a6414fa9739afc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:03 +0000
Subject: [PATCH 65/74] fix: always include the line number in lookup
 description errors

---
 opentype/gtab/builder/lexer.go  |  5 +++--
 opentype/gtab/builder/parser.go | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/opentype/gtab/builder/lexer.go b/opentype/gtab/builder/lexer.go
index 177f97d..ead2a5f 100644
--- a/opentype/gtab/builder/lexer.go
+++ b/opentype/gtab/builder/lexer.go
@@ -135,8 +135,9 @@ func (l *lexer) backup() {
 
 func (l *lexer) errorf(format string, args ...interface{}) stateFn {
 	l.items <- item{
-		typ: itemError,
-		val: fmt.Sprintf(format, args...),
+		typ:  itemError,
+		val:  fmt.Sprintf(format, args...),
+		line: l.line,
 	}
 	return nil
 }
diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index c29a455..ec78ede 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -80,6 +80,7 @@ func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err erro
 type parser struct {
 	tokens  <-chan item
 	backlog []item
+	line    int // the line number of the last token read
 
 	fontInfo *sfnt.Font
 	cmap     cmap.Subtable
@@ -1343,7 +1344,17 @@ func (p *parser) readItem() item {
 		p.backlog = p.backlog[:n]
 		return item
 	}
-	return <-p.tokens
+	item, ok := <-p.tokens
+	if !ok {
+		return eofItem(p.line)
+	}
+	p.line = item.line
+	return item
+}
+
+// eofItem is returned once all tokens have been read.
+func eofItem(line int) item {
+	return item{typ: itemEOF, line: line}
 }
 
 func (p *parser) peek() item {
-- 
2.43.0


From 52ba18ff6cc0c32ecc7a46e38fb01300e7589d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:05 +0000
Subject: [PATCH 66/74] fix: do not leak a goroutine for strings with unmapped
 characters

---
 opentype/gtab/builder/parser.go | 48 ++++++++++++++-------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index ec78ede..ab19bc5 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -1123,7 +1123,7 @@ func (p *parser) readGlyphList() []glyph.ID {
 			next = append(next, gid)
 
 		case itemString:
-			for r := range decodeString(item.val) {
+			for _, r := range decodeString(item.val) {
 				gid := p.cmap.Lookup(r)
 				if gid == 0 {
 					p.fatal("rune %q not in mapped in font", r)
@@ -1399,35 +1399,27 @@ func (p *parser) optionalIdentifier(name string) bool {
 	return true
 }
 
-func decodeString(s string) <-chan rune {
-	c := make(chan rune)
-	go func() {
-		s := s[1 : len(s)-1]
-		escape := false
-		for _, r := range s {
-			if escape {
-				escape = false
-				switch r {
-				case 'n':
-					c <- '\n'
-				case 'r':
-					c <- '\r'
-				case 't':
-					c <- '\t'
-				default:
-					c <- r
-				}
-				continue
-			}
-			if r == '\\' {
-				escape = true
-				continue
+func decodeString(s string) []rune {
+	var res []rune
+	escape := false
+	for _, r := range s[1 : len(s)-1] {
+		if escape {
+			escape = false
+			switch r {
+			case 'n':
+				r = '\n'
+			case 'r':
+				r = '\r'
+			case 't':
+				r = '\t'
 			}
-			c <- r
+		} else if r == '\\' {
+			escape = true
+			continue
 		}
-		close(c)
-	}()
-	return c
+		res = append(res, r)
+	}
+	return res
 }
 
 func isIdentifier(i item, val string) bool {
-- 
2.43.0


From 2886ccaa6779610413b0eb407a0713cc8d198ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:07 +0000
Subject: [PATCH 67/74] fix: infinite loop for glyph ranges ending at glyph
 65535

---
 opentype/gtab/builder/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index ab19bc5..fb92733 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -1159,8 +1159,8 @@ func (p *parser) readGlyphList() []glyph.ID {
 						res = append(res, glyph.ID(i))
 					}
 				} else if gid > start {
-					for i := start + 1; i <= gid; i++ {
-						res = append(res, i)
+					for i := int(start) + 1; i <= int(gid); i++ {
+						res = append(res, glyph.ID(i))
 					}
 				}
 				hyphenSeen = false
-- 
2.43.0


From 15dff64e5b9dfee5e7b95a9b88218cede193a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:09 +0000
Subject: [PATCH 68/74] fix: allow lookup descriptions for fonts without
 character map

---
 opentype/gtab/builder/parser.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index fb92733..b0193a5 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -46,10 +46,9 @@ func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err erro
 		}
 	}
 
-	cmap, err := fontInfo.CMapTable.GetBest()
-	if err != nil {
-		return nil, err
-	}
+	// Fonts without a usable character map can still be described using glyph
+	// names and glyph IDs.
+	cmap, _ := fontInfo.CMapTable.GetBest()
 
 	_, tokens := lex(input)
 	p := &parser{
@@ -1124,7 +1123,10 @@ func (p *parser) readGlyphList() []glyph.ID {
 
 		case itemString:
 			for _, r := range decodeString(item.val) {
-				gid := p.cmap.Lookup(r)
+				var gid glyph.ID
+				if p.cmap != nil {
+					gid = p.cmap.Lookup(r)
+				}
 				if gid == 0 {
 					p.fatal("rune %q not in mapped in font", r)
 				}
-- 
2.43.0


From 82a2d5727c6fd355e1b722d6470ddfb1b007b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:11 +0000
Subject: [PATCH 69/74] fix: write lookup flags in the form accepted by the
 parser

---
 opentype/gtab/builder/explain.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 7d9ec60..cd5a4ba 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -372,7 +372,7 @@ func (ee *explainer) explainFlags(flags gtab.LookupFlags) {
 		ee.w.WriteString(" -base")
 	}
 	if flags&gtab.IgnoreLigatures != 0 {
-		ee.w.WriteString(" -lig")
+		ee.w.WriteString(" -ligs")
 	}
 	// if flags&UseMarkFilteringSet != 0 {
 	// 	ee.w.WriteString(" -UseMarkFilteringSet")
@@ -582,6 +582,7 @@ func (ee *explainer) explainSeqContext1(l *gtab.SeqContext1) {
 }
 
 func (ee *explainer) explainSeqContext2(l *gtab.SeqContext2) {
+	ee.w.WriteRune(' ')
 	ee.defineClasses("class", l.Input)
 	ee.w.WriteRune('/')
 	ee.explainCoverage(l.Cov)
@@ -641,6 +642,7 @@ func (ee *explainer) explainChainedSeqContext1(l *gtab.ChainedSeqContext1) {
 }
 
 func (ee *explainer) explainChainedSeqContext2(l *gtab.ChainedSeqContext2) {
+	ee.w.WriteRune(' ')
 	ee.defineClasses("backtrackclass", l.Backtrack)
 	ee.defineClasses("inputclass", l.Input)
 	ee.defineClasses("lookaheadclass", l.Lookahead)
-- 
2.43.0


From 2a3dfaf9e45b4bdb59f1586a9570309e182acda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:32 +0000
Subject: [PATCH 70/74] fix: describe GPOS2 and GPOS4 lookups with several
 subtables

---
 opentype/gtab/builder/explain.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index cd5a4ba..f8cab9c 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -215,7 +215,9 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 
 			case *gtab.Gpos2_2:
 				checkType(2)
-				ee.w.WriteString("\n\t")
+				if i == 0 {
+					ee.w.WriteString("\n\t")
+				}
 				ee.w.WriteRune('/')
 				ee.writeGlyphList(l.Cov.Glyphs())
 				ee.w.WriteRune('/')
@@ -270,9 +272,14 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 
 			case *gtab.Gpos4_1:
 				checkType(4)
+				sep := "\n\t"
+				if i > 0 {
+					sep = "" // the separator already includes a newline
+				}
 				markGlyphs := l.MarkCov.Glyphs()
 				for i, gid := range markGlyphs {
-					ee.w.WriteString("\n\tmark ")
+					ee.w.WriteString(sep + "mark ")
+					sep = "\n\t"
 					ee.writeGlyph(gid)
 					ee.w.WriteRune(':')
 					rec := l.MarkArray[i]
@@ -282,7 +289,8 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 
 				baseGlyphs := l.BaseCov.Glyphs()
 				for i, gid := range baseGlyphs {
-					ee.w.WriteString("\n\tbase ")
+					ee.w.WriteString(sep + "base ")
+					sep = "\n\t"
 					ee.writeGlyph(gid)
 					ee.w.WriteRune(':')
 					anchors := l.BaseArray[i]
-- 
2.43.0


From b34c82da7ce43cebeedbe44b47ece84156caa88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:34 +0000
Subject: [PATCH 71/74] fix: do not use glyph ranges to describe ligature
 lookups

---
 opentype/gtab/builder/explain.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index f8cab9c..bacef4c 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -59,7 +59,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						to:   []glyph.ID{key + l.Delta},
 					})
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, true)
 
 			case *gtab.Gsub1_2:
 				checkType(1)
@@ -70,7 +70,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						to:   []glyph.ID{l.SubstituteGlyphIDs[idx]},
 					})
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, true)
 
 			case *gtab.Gsub2_1:
 				checkType(2)
@@ -111,7 +111,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						})
 					}
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, false)
 
 			case *gtab.SeqContext1:
 				checkType(5)
@@ -395,7 +395,11 @@ type mapping struct {
 	to   []glyph.ID
 }
 
-func (ee *explainer) explainSeqMappings(mm []mapping) {
+// explainSeqMappings writes a list of mappings.
+//
+// If allowRanges is true, all mappings must be from single glyphs to single
+// glyphs, and runs of consecutive glyphs are abbreviated as ranges.
+func (ee *explainer) explainSeqMappings(mm []mapping, allowRanges bool) {
 	sort.SliceStable(mm, func(i, j int) bool {
 		return mm[i].from[0] < mm[j].from[0]
 	})
@@ -405,15 +409,8 @@ func (ee *explainer) explainSeqMappings(mm []mapping) {
 		ee.w.WriteString(sep)
 		sep = ", "
 
-		canRange := len(mm) > 2
-		for i := 1; canRange && i < len(mm); i++ {
-			if len(mm[i].from) != 1 || len(mm[i].to) != 1 {
-				canRange = false
-			}
-		}
-
 		rangeLen := 1
-		if canRange {
+		if allowRanges {
 			delta := mm[0].to[0] - mm[0].from[0]
 			for i := 1; i < len(mm); i++ {
 				from := mm[i].from[0]
-- 
2.43.0


From 1cec92cc081b13847d7b9a9591f178d23c93f50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:37 +0000
Subject: [PATCH 72/74] fix: allow ranges of numeric glyph IDs in lookup
 descriptions

---
 opentype/gtab/builder/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index b0193a5..89d3bc1 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -1134,7 +1134,13 @@ func (p *parser) readGlyphList() []glyph.ID {
 			}
 
 		case itemInteger:
-			x, err := strconv.Atoi(item.val)
+			val := item.val
+			if val[0] == '-' && len(res) > 0 && !hyphenSeen {
+				// The "-5" in "3-5" is a range, not a negative number.
+				hyphenSeen = true
+				val = val[1:]
+			}
+			x, err := strconv.Atoi(val)
 			if err != nil || x < 0 || x >= 65536 || x >= p.fontInfo.NumGlyphs() {
 				p.fatal("invalid glyph id %q", item.val)
 			}
-- 
2.43.0


From 1b5feaf621140fc349efcbda9b24988096712169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:59 +0000
Subject: [PATCH 73/74] fix: only use unambiguous glyph names and characters in
 lookup descriptions

---
 opentype/gtab/builder/explain.go | 25 +++++++++++++++++++++++--
 opentype/gtab/builder/lexer.go   |  8 ++++++--
 opentype/gtab/builder/parser.go  | 24 ++++++++++++++----------
 3 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index bacef4c..1ea0ea5 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"unicode"
 
 	"golang.org/x/exp/maps"
 	"seehuhn.de/go/sfnt"
@@ -345,17 +346,22 @@ func newExplainer(fontInfo *sfnt.Font) *explainer {
 	if cmap, _ := fontInfo.CMapTable.GetBest(); cmap != nil {
 		a, b := cmap.CodeRange()
 		for r := a; r <= b; r++ {
+			if !unicode.IsPrint(r) {
+				// the lexer does not support the required escape sequences
+				continue
+			}
 			gid := cmap.Lookup(r)
-			if gid != 0 {
+			if gid != 0 && int(gid) < len(mappings) {
 				mappings[gid] = fmt.Sprintf("%q", string([]rune{r}))
 			}
 		}
 	}
 
+	byName := makeNameMap(fontInfo)
 	names := make([]string, fontInfo.NumGlyphs())
 	for i := range names {
 		name := fontInfo.GlyphName(glyph.ID(i))
-		if name != "" {
+		if isUsableName(name) && byName[name] == glyph.ID(i) {
 			names[i] = name
 		} else {
 			names[i] = fmt.Sprintf("%d", i)
@@ -369,6 +375,21 @@ func newExplainer(fontInfo *sfnt.Font) *explainer {
 	}
 }
 
+// isUsableName returns true if the given glyph name can be used to refer to a
+// glyph in the description of a lookup.
+func isUsableName(name string) bool {
+	switch name {
+	case "", "class", "inputclass", "backtrackclass", "lookaheadclass":
+		return false
+	}
+	for i, r := range name {
+		if !isIdentifierStart(r) && (i == 0 || !unicode.IsDigit(r)) {
+			return false
+		}
+	}
+	return true
+}
+
 func (ee *explainer) explainFlags(flags gtab.LookupFlags) {
 	if flags&gtab.IgnoreMarks != 0 {
 		ee.w.WriteString(" -marks")
diff --git a/opentype/gtab/builder/lexer.go b/opentype/gtab/builder/lexer.go
index ead2a5f..c469897 100644
--- a/opentype/gtab/builder/lexer.go
+++ b/opentype/gtab/builder/lexer.go
@@ -89,6 +89,10 @@ var singleCharTokens = map[rune]itemType{
 	'=': itemEqual,
 }
 
+func isIdentifierStart(r rune) bool {
+	return unicode.IsLetter(r) || r == '.' || r == '_'
+}
+
 func isSingleCharToken(r rune) bool {
 	_, ok := singleCharTokens[r]
 	return ok
@@ -171,7 +175,7 @@ func lexStart(l *lexer) stateFn {
 		l.emit(itemEOL)
 		l.line++
 		return lexStart
-	case unicode.IsLetter(r) || r == '.' || r == '_':
+	case isIdentifierStart(r):
 		return lexIdentifier
 	case r == '"':
 		return lexString
@@ -210,7 +214,7 @@ func lexStart(l *lexer) stateFn {
 func lexIdentifier(l *lexer) stateFn {
 	for {
 		r := l.next()
-		if !(unicode.IsLetter(r) || r == '.' || r == '_' || unicode.IsDigit(r)) {
+		if !isIdentifierStart(r) && !unicode.IsDigit(r) {
 			if r != eof {
 				l.backup()
 			}
diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index 89d3bc1..be72f5d 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -37,15 +37,6 @@ import (
 
 // Parse decodes the textual description of a LookupList.
 func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err error) {
-	numGlyphs := fontInfo.NumGlyphs()
-	byName := make(map[string]glyph.ID)
-	for i := glyph.ID(0); i < glyph.ID(numGlyphs); i++ {
-		glyphName := fontInfo.GlyphName(i)
-		if glyphName != "" {
-			byName[glyphName] = i
-		}
-	}
-
 	// Fonts without a usable character map can still be described using glyph
 	// names and glyph IDs.
 	cmap, _ := fontInfo.CMapTable.GetBest()
@@ -56,7 +47,7 @@ func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err erro
 
 		fontInfo: fontInfo,
 		cmap:     cmap,
-		byName:   byName,
+		byName:   makeNameMap(fontInfo),
 	}
 
 	defer func() {
@@ -76,6 +67,19 @@ func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err erro
 	return
 }
 
+// makeNameMap returns the mapping from glyph names to glyph IDs.
+func makeNameMap(fontInfo *sfnt.Font) map[string]glyph.ID {
+	numGlyphs := fontInfo.NumGlyphs()
+	byName := make(map[string]glyph.ID)
+	for i := 0; i < numGlyphs; i++ {
+		glyphName := fontInfo.GlyphName(glyph.ID(i))
+		if glyphName != "" {
+			byName[glyphName] = glyph.ID(i)
+		}
+	}
+	return byName
+}
+
 type parser struct {
 	tokens  <-chan item
 	backlog []item
-- 
2.43.0


From 98af6f98a08ee681b60eaff9cd40ba46df075da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:50 +0000
Subject: [PATCH 74/74] fix: limit the total length of overlapping names in a
 name table

---
 name/name.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/name/name.go b/name/name.go
index 6515f8c..141c03a 100644
--- a/name/name.go
+++ b/name/name.go
@@ -75,6 +75,11 @@ func Decode(data []byte) (*Info, error) {
 	macTables := make(map[string]*Table)
 	msTables := make(map[string]*Table)
 
+	// Several records can refer to the same part of the storage area.  We
+	// limit the total length of the names, to avoid excessive memory use for
+	// malicious files.
+	budget := 1<<21 + 64*len(data)
+
 recLoop:
 	for i := 0; i < numRec; i++ {
 		pos := recBase + i*12
@@ -101,6 +106,10 @@ recLoop:
 			return nil, errMalformedNames
 		}
 		nameBytes := data[storageOffset+nameOffset : storageOffset+nameOffset+nameLen]
+		budget -= nameLen
+		if budget < 0 {
+			return nil, errMalformedNames
+		}
 
 		// We ignore encodings we don't understand.
 		var val string
-- 
2.43.0

