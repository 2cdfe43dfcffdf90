From 0de9eab35d1e721f6cc961adabdf69e0cf8bb92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:08 +0000
Subject: [PATCH 01/23] fix: do not read past the end of a truncated unicode
 layer name

---
 util.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index cddf128..e9beac2 100644
--- a/util.go
+++ b/util.go
@@ -83,7 +83,13 @@ func writeUint32(b []byte, v uint32, offset int) {
 }
 
 func readUnicodeString(b []byte) string {
-	ln := readUint32(b, 0)
+	if len(b) < 4 {
+		return ""
+	}
+	ln := int(readUint32(b, 0))
+	if max := (len(b) - 4) >> 1; ln > max {
+		ln = max
+	}
 	if ln == 0 {
 		return ""
 	}
-- 
2.43.0


From 3f035bd3326f7cf107cea74a9d83380b1c3952ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:08 +0000
Subject: [PATCH 02/23] fix: read alignment padding completely even if the
 reader returns short reads

---
 util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util.go b/util.go
index e9beac2..abececf 100644
--- a/util.go
+++ b/util.go
@@ -103,7 +103,7 @@ func readUnicodeString(b []byte) string {
 func adjustAlign2(r io.Reader, l int) (read int, err error) {
 	if l&1 != 0 {
 		var b [1]byte
-		return r.Read(b[:])
+		return io.ReadFull(r, b[:])
 	}
 	return 0, nil
 }
@@ -111,7 +111,7 @@ func adjustAlign2(r io.Reader, l int) (read int, err error) {
 func adjustAlign4(r io.Reader, l int) (read int, err error) {
 	if gap := l & 3; gap > 0 {
 		var b [4]byte
-		return r.Read(b[:4-gap])
+		return io.ReadFull(r, b[:4-gap])
 	}
 	return 0, nil
 }
-- 
2.43.0


From 61c3e994fa1bf3797e5d2d720a276fee3b9e8128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:08 +0000
Subject: [PATCH 03/23] fix: report an error when skipping beyond the end of a
 seekable reader

---
 util.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index abececf..d95436d 100644
--- a/util.go
+++ b/util.go
@@ -124,7 +124,15 @@ func discard(r io.Reader, skip int) (read int, err error) {
 	case discarder:
 		return rr.Discard(skip)
 	case io.Seeker:
-		if _, err = rr.Seek(int64(skip), 1); err != nil {
+		if skip <= 0 {
+			return 0, nil
+		}
+		// Seeking beyond the end is not an error, so read the last byte to notice it.
+		if _, err = rr.Seek(int64(skip)-1, 1); err != nil {
+			return 0, err
+		}
+		var b [1]byte
+		if _, err = io.ReadFull(r, b[:]); err != nil {
 			return 0, err
 		}
 		return skip, nil
-- 
2.43.0


From aa8492ed4d3d44c93d5413a0fd34c44d03524090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:08 +0000
Subject: [PATCH 04/23] fix: do not seek backwards when the layer and mask
 information overruns its length

---
 layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index 7771a92..66231d2 100644
--- a/layer.go
+++ b/layer.go
@@ -174,7 +174,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 		return nil, read, err
 	}
 
-	if remain := layerAndMaskInfoLen + intSize - read; remain != 0 && remain < intSize {
+	if remain := layerAndMaskInfoLen + intSize - read; remain > 0 && remain < intSize {
 		if l, err = discard(r, remain); err != nil {
 			return nil, read, err
 		}
-- 
2.43.0


From d1cabfa7ed9a63f827af338f3a52c3553f7b61f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:08 +0000
Subject: [PATCH 05/23] fix: report an error when the layer info section
 overruns its length

---
 layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer.go b/layer.go
index 66231d2..9aede71 100644
--- a/layer.go
+++ b/layer.go
@@ -431,6 +431,9 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 		}
 		read += l
 	}
+	if layerInfoLen+intSize != read {
+		return nil, read, errors.New("psd: layer info read size mismatched. expected " + itoa(layerInfoLen+intSize) + " actual " + itoa(read))
+	}
 
 	if Debug != nil {
 		Debug.Println("end - layer info section")
-- 
2.43.0


From e1040ee0b8298d964402b7044d62d4f5389d21d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:08 +0000
Subject: [PATCH 06/23] fix: read the coordinates of the real user mask as
 signed numbers

---
 layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer.go b/layer.go
index 9aede71..f2642fc 100644
--- a/layer.go
+++ b/layer.go
@@ -794,8 +794,8 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	read += l
 	readMask += l
 	layer.Mask.RealRect = image.Rect(
-		int(readUint32(b, 4)), int(readUint32(b, 0)),
-		int(readUint32(b, 12)), int(readUint32(b, 8)),
+		int(int32(readUint32(b, 4))), int(int32(readUint32(b, 0))),
+		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
 	return read, nil
-- 
2.43.0


From 43c95572523f065db87cfde0b212df6c27a1a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:08 +0000
Subject: [PATCH 07/23] fix: skip the remaining data of a layer mask record

---
 layer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/layer.go b/layer.go
index f2642fc..f9f473b 100644
--- a/layer.go
+++ b/layer.go
@@ -798,6 +798,13 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
+	// Skip any remaining data.
+	if readMask < maskLen {
+		if l, err = discard(r, maskLen-readMask); err != nil {
+			return read, err
+		}
+		read += l
+	}
 	return read, nil
 }
 
-- 
2.43.0


From 3574b33344d6cd16d2350f2ae706b1d91ec2e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:08 +0000
Subject: [PATCH 08/23] fix: report an error for a too short section divider
 setting

---
 layer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/layer.go b/layer.go
index f9f473b..eadfa1a 100644
--- a/layer.go
+++ b/layer.go
@@ -225,6 +225,9 @@ func buildTree(layer []Layer) ([]Layer, error) {
 func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType int, err error) {
 	b, ok := l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting]
 	if ok {
+		if len(b) < 4 {
+			return 0, "", 0, errors.New("psd: section divider setting is too short")
+		}
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
@@ -241,6 +244,9 @@ func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType
 	}
 	b, ok = l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting2]
 	if ok {
+		if len(b) < 4 {
+			return 0, "", 0, errors.New("psd: section divider setting is too short")
+		}
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
-- 
2.43.0


From ab2400eba87b7d49b827f3d42ca37e2a9e406df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:08 +0000
Subject: [PATCH 09/23] fix: report an error instead of losing layers when a
 group is not closed

---
 layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer.go b/layer.go
index eadfa1a..9397d2b 100644
--- a/layer.go
+++ b/layer.go
@@ -219,6 +219,9 @@ func buildTree(layer []Layer) ([]Layer, error) {
 			n = append(n, l)
 		}
 	}
+	if len(stack) != 0 {
+		return nil, errors.New("psd: layer tree structure is broken(group is not closed)")
+	}
 	return n, nil
 }
 
-- 
2.43.0


From 0ca26adb582c040e1b4104da61b5f7bb6a93498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:08 +0000
Subject: [PATCH 10/23] fix: check that the image resource section ends where
 its length says

---
 imageres.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/imageres.go b/imageres.go
index af5f22a..aed81b5 100644
--- a/imageres.go
+++ b/imageres.go
@@ -33,7 +33,7 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 	// Image Resource Blocks
 	// http://www.adobe.com/devnet-apps/photoshop/fileformatashtml/#50577409_46269
 	var id int
-	for read < imageResourceLen {
+	for read < imageResourceLen+4 {
 		var res ImageResource
 
 		// Signature: '8BIM'
@@ -90,6 +90,9 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 		}
 		resMap[id] = res
 	}
+	if read != imageResourceLen+4 {
+		return nil, read, errors.New("psd: image resource read size mismatched. expected " + itoa(imageResourceLen+4) + " actual " + itoa(read))
+	}
 	if Debug != nil {
 		Debug.Println("end - image resources section")
 	}
-- 
2.43.0


From b4d92f69463abcaecce300cce91e6c03ad30810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:08 +0000
Subject: [PATCH 11/23] fix: do not read past the end of truncated alpha
 identifiers

---
 imageres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imageres.go b/imageres.go
index aed81b5..876d85e 100644
--- a/imageres.go
+++ b/imageres.go
@@ -111,7 +111,7 @@ func hasAlphaID0(Res map[int]ImageResource) bool {
 	if !ok {
 		return true
 	}
-	for i, ln := 0, len(aid.Data); i < ln; i += 4 {
+	for i, ln := 0, len(aid.Data); i+4 <= ln; i += 4 {
 		if readUint32(aid.Data, i) == 0 {
 			return true
 		}
-- 
2.43.0


From 357e961d21c04fc5dab89e9e5e05bf2f72bc7b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:55 +0000
Subject: [PATCH 12/23] fix: use the row size in bytes for RLE data of 16 and
 32 bit depth

---
 compress.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/compress.go b/compress.go
index 5482877..6475abe 100644
--- a/compress.go
+++ b/compress.go
@@ -32,13 +32,7 @@ func (cm CompressionMethod) Decode(dest []byte, r io.Reader, sizeHint int64, rec
 	case CompressionMethodRaw:
 		return io.ReadFull(r, dest)
 	case CompressionMethodRLE:
-		var width int
-		if depth == 1 {
-			width = (rect.Dx() + 7) >> 3
-		} else {
-			width = rect.Dx()
-		}
-		return decodePackBits(dest, r, width, rect.Dy()*channels, large)
+		return decodePackBits(dest, r, (rect.Dx()*depth+7)>>3, rect.Dy()*channels, large)
 	case CompressionMethodZIPWithoutPrediction:
 		return decodeZLIB(dest, r, sizeHint)
 	case CompressionMethodZIPWithPrediction:
-- 
2.43.0


From d8374f325983d8c05ec0383cae00bee8e61b169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:55 +0000
Subject: [PATCH 13/23] fix: keep every RLE row in its own place whatever its
 packed data expands to

---
 compress_other.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/compress_other.go b/compress_other.go
index 9b7e084..653cec1 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -50,7 +50,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		n--
 	}
 	if n == 1 {
-		err = decodePackBitsPerLine(dest, buf, lens)
+		err = decodePackBitsLines(dest, buf, lens, width)
 		return
 	}
 
@@ -62,13 +62,13 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	for i := 1; i < n; i++ {
 		go func(index int, dest []byte, buf []byte, lens []int) {
 			defer wg.Done()
-			errs[index] = decodePackBitsPerLine(dest, buf, lens)
+			errs[index] = decodePackBitsLines(dest, buf, lens, width)
 		}(i-1, dest[ofs*width:(ofs+step)*width], buf[offsets[ofs]:offsets[ofs+step]], lens[ofs:ofs+step])
 		ofs += step
 	}
 	go func() {
 		defer wg.Done()
-		errs[n-1] = decodePackBitsPerLine(dest[ofs*width:], buf[offsets[ofs]:], lens[ofs:])
+		errs[n-1] = decodePackBitsLines(dest[ofs*width:], buf[offsets[ofs]:], lens[ofs:], width)
 	}()
 	wg.Wait()
 	for i := 0; i < n; i++ {
@@ -80,6 +80,18 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	return
 }
 
+// decodePackBitsLines decodes each line into its own part of dest.
+func decodePackBitsLines(dest []byte, buf []byte, lens []int, width int) error {
+	for i, ln := range lens {
+		if err := decodePackBitsPerLine(dest[:width], buf[:ln], lens[i:i+1]); err != nil {
+			return err
+		}
+		dest = dest[width:]
+		buf = buf[ln:]
+	}
+	return nil
+}
+
 func decodePackBitsPerLine(dest []byte, buf []byte, lens []int) error {
 	var l int
 	for _, ln := range lens {
-- 
2.43.0


From 15a36cde95360bb1e873ee3296963bf0d197cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:55 +0000
Subject: [PATCH 14/23] fix: do not read past the end of broken palette data

---
 psd.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/psd.go b/psd.go
index 4e66663..275f882 100644
--- a/psd.go
+++ b/psd.go
@@ -92,10 +92,13 @@ func (cfg *Config) Palette() color.Palette {
 	// 0x0417(1046) | (Photoshop 6.0) Transparency Index.
 	//                2 bytes for the index of transparent color, if any.
 	transparentColorIndex := -1
-	if r, ok := cfg.Res[0x0417]; ok {
+	if r, ok := cfg.Res[0x0417]; ok && len(r.Data) >= 2 {
 		transparentColorIndex = int(readUint16(r.Data, 0))
 	}
-	pal := make(color.Palette, len(cfg.ColorModeData)/3)
+	if len(cfg.ColorModeData) < 768 {
+		return nil
+	}
+	pal := make(color.Palette, 256)
 	for i := range pal {
 		c := color.NRGBA{
 			cfg.ColorModeData[i],
-- 
2.43.0


From 56f3d763b0d1a812941904423e033e7a4ccb0b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:55 +0000
Subject: [PATCH 15/23] fix: report an error for unusable combinations of color
 mode, depth, channels and palette

---
 psd.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/psd.go b/psd.go
index 275f882..cc01c49 100644
--- a/psd.go
+++ b/psd.go
@@ -118,10 +118,17 @@ func (cfg *Config) makePicker() (picker, error) {
 	var pk picker
 	switch cfg.ColorMode {
 	case ColorModeIndexed:
-		pk = &pickerPalette{Palette: cfg.Palette()}
+		if pal := cfg.Palette(); pal != nil && cfg.Depth == 8 {
+			pk = &pickerPalette{Palette: pal}
+		}
 	case ColorModeBitmap:
-		pk = &pickerGray1{}
+		if cfg.Depth == 1 {
+			pk = &pickerGray1{}
+		}
 	default:
+		if cfg.Channels < cfg.ColorMode.Channels() {
+			return nil, errors.New("psd: too few channels for the color mode")
+		}
 		pk = findPicker(cfg.Depth, cfg.ColorMode, cfg.Channels > cfg.ColorMode.Channels() && hasAlphaID0(cfg.Res))
 	}
 	if pk == nil {
-- 
2.43.0


From a07ea49729583bf44831c4747eaa9a75955984fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:55 +0000
Subject: [PATCH 16/23] fix: do not panic on layers with missing, extra or
 oversized channels or an unsupported color mode

---
 layer.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/layer.go b/layer.go
index 9397d2b..d4f80f7 100644
--- a/layer.go
+++ b/layer.go
@@ -450,12 +450,19 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 	return layerSlice, read, nil
 }
 
+// maxLayerSize is the maximum width and height of the image in a large document.
+const maxLayerSize = 300000
+
 func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *DecodeOptions) (read int, err error) {
 	var l int
 	b := make([]byte, 2)
 	for i, lci := range lcis {
 		chMap := map[int]Channel{}
+		if findPicker(cfg.Depth, cfg.ColorMode, false) == nil {
+			return read, errors.New("psd: color mode " + itoa(int(cfg.ColorMode)) + " depth " + itoa(cfg.Depth) + " layer is not implemeted")
+		}
 		pickerChs := make([][]byte, cfg.ColorMode.Channels(), 8)
+		var alpha []byte
 		for _, j := range lci.ChannelData {
 			var readCh int
 			if j.DataLen >= 2 {
@@ -481,6 +488,9 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 			default:
 				rect = lci.Layer.Rect
 			}
+			if rect.Dx() > maxLayerSize || rect.Dy() > maxLayerSize {
+				return read, errors.New("psd: layer: " + itoa(i) + " channel: " + itoa(j.ChIndex) + " is too large")
+			}
 			data := make([]byte, (rect.Dx()*cfg.Depth+7)>>3*rect.Dy())
 			pk := findGrayPicker(cfg.Depth)
 			pk.setSource(rect, data)
@@ -509,12 +519,26 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 				Picker: pk,
 			}
 			switch {
-			case j.ChIndex >= 0:
+			case j.ChIndex >= 0 && j.ChIndex < len(pickerChs):
 				pickerChs[j.ChIndex] = data
 			case j.ChIndex == -1:
-				pickerChs = append(pickerChs, data)
+				alpha = data
 			}
 		}
+		for ch, data := range pickerChs {
+			if data != nil {
+				continue
+			}
+			// The layer does not have this channel.
+			rect := lci.Layer.Rect
+			if rect.Dx() > maxLayerSize || rect.Dy() > maxLayerSize {
+				return read, errors.New("psd: layer: " + itoa(i) + " is too large")
+			}
+			pickerChs[ch] = make([]byte, (rect.Dx()*cfg.Depth+7)>>3*rect.Dy())
+		}
+		if alpha != nil {
+			pickerChs = append(pickerChs, alpha)
+		}
 		pk := findPicker(cfg.Depth, cfg.ColorMode, cfg.ColorMode.Channels() < len(pickerChs))
 		pk.setSource(lci.Layer.Rect, pickerChs...)
 		lci.Layer.Picker = pk
-- 
2.43.0


From 29297100a05f07604f5f663b71b2f0591b689f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 17/23] fix: decode RLE rows in browser builds like in native
 builds

---
 compress.inc.js     | 12 +++++++-----
 compress_js.go      |  2 +-
 compress_wasm_js.go |  6 +++++-
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/compress.inc.js b/compress.inc.js
index d44e57a..4dce2bd 100644
--- a/compress.inc.js
+++ b/compress.inc.js
@@ -13,14 +13,15 @@ $global['$github.com/oov/psd$'] = {
         }
         return r;
     },
-    decodePackBits: function(dest, buf, lens) {
-        var ofs = 0,
-            d = 0;
+    decodePackBits: function(dest, buf, lens, width) {
+        var ofs = 0;
         for (var i = 0; i < lens.length; ++i) {
+            var d = width * i,
+                end = d + width;
             for (var j = 0, ln = lens[i]; j < ln;) {
                 if (buf[ofs] <= 0x7f) {
                     var l = buf[ofs++] + 1;
-                    if (dest.length < d+l || ln-j-1 < l) {
+                    if (end < d+l || ln-j-1 < l) {
                         return false;
                     }
                     for (var k = 0; k < l; ++k) {
@@ -31,10 +32,11 @@ $global['$github.com/oov/psd$'] = {
                 }
                 if (buf[ofs] == 0x80) {
                     ofs++;
+                    ++j;
                     continue;
                 }
                 var l = 256 - buf[ofs++] + 1;
-                if (dest.length < d+l || j+1 >= ln) {
+                if (end < d+l || j+1 >= ln) {
                     return false;
                 }
                 for (var k = 0, c = buf[ofs++]; k < l; ++k) {
diff --git a/compress_js.go b/compress_js.go
index 6cfe8d5..0d6dd4f 100644
--- a/compress_js.go
+++ b/compress_js.go
@@ -33,7 +33,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		return
 	}
 	read += l
-	if !js.Global.Get("$github.com/oov/psd$").Call("decodePackBits", dest, b, lens).Bool() {
+	if !js.Global.Get("$github.com/oov/psd$").Call("decodePackBits", dest, b, lens, width).Bool() {
 		return read, errors.New("psd: error occurred in decodePackBits")
 	}
 	return
diff --git a/compress_wasm_js.go b/compress_wasm_js.go
index 8009a24..e1e2c3a 100644
--- a/compress_wasm_js.go
+++ b/compress_wasm_js.go
@@ -43,7 +43,11 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	}
 	read += l
 
-	err = decodePackBitsPerLine(dest, buf, lens)
+	for i, ln := range lens {
+		if err = decodePackBitsPerLine(dest[i*width:(i+1)*width], buf[offsets[i]:offsets[i]+ln], lens[i:i+1]); err != nil {
+			return
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 58df6d4f5544728427c246882aa20eaaa7db341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 18/23] fix: do not panic on absurd data lengths

---
 compress_js.go      |  3 +--
 compress_other.go   |  3 +--
 compress_wasm_js.go |  3 +--
 layer.go            |  5 ++---
 util.go             | 23 +++++++++++++++++++++++
 5 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/compress_js.go b/compress_js.go
index 0d6dd4f..15b3491 100644
--- a/compress_js.go
+++ b/compress_js.go
@@ -28,8 +28,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	for _, ln := range lens {
 		total += ln
 	}
-	b = make([]byte, total)
-	if l, err = io.ReadFull(r, b); err != nil {
+	if b, l, err = readBytes(r, int(total)); err != nil {
 		return
 	}
 	read += l
diff --git a/compress_other.go b/compress_other.go
index 653cec1..6402ea3 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -39,8 +39,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		}
 	}
 
-	buf = make([]byte, total)
-	if l, err = io.ReadFull(r, buf); err != nil {
+	if buf, l, err = readBytes(r, total); err != nil {
 		return
 	}
 	read += l
diff --git a/compress_wasm_js.go b/compress_wasm_js.go
index e1e2c3a..899480a 100644
--- a/compress_wasm_js.go
+++ b/compress_wasm_js.go
@@ -37,8 +37,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		}
 	}
 
-	buf = make([]byte, total)
-	if l, err = io.ReadFull(r, buf); err != nil {
+	if buf, l, err = readBytes(r, total); err != nil {
 		return
 	}
 	read += l
diff --git a/layer.go b/layer.go
index d4f80f7..39d84f8 100644
--- a/layer.go
+++ b/layer.go
@@ -892,9 +892,8 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 			}
 			read += l
 			var data []byte
-			if ln := int(readUint(b, 0, intSize)); ln > 0 {
-				data = make([]byte, ln)
-				if l, err = io.ReadFull(r, data); err != nil {
+			if ln := int(readUint(b, 0, intSize)); ln != 0 {
+				if data, l, err = readBytes(r, ln); err != nil {
 					return nil, nil, read, err
 				}
 				read += l
diff --git a/util.go b/util.go
index d95436d..cc6bf2a 100644
--- a/util.go
+++ b/util.go
@@ -1,6 +1,7 @@
 package psd
 
 import (
+	"errors"
 	"io"
 	"io/ioutil"
 	"math"
@@ -142,6 +143,28 @@ func discard(r io.Reader, skip int) (read int, err error) {
 	}
 }
 
+// readBytes reads n bytes from r.
+// The buffer grows as the data arrives because n may come from a broken file.
+func readBytes(r io.Reader, n int) (b []byte, read int, err error) {
+	const chunkLen = 1 << 24
+	if n < 0 {
+		return nil, 0, errors.New("psd: unexpected data length")
+	}
+	for read < n {
+		m := n - read
+		if m > chunkLen {
+			m = chunkLen
+		}
+		b = append(b, make([]byte, m)...)
+		l, err := io.ReadFull(r, b[read:])
+		read += l
+		if err != nil {
+			return nil, read, err
+		}
+	}
+	return b, read, nil
+}
+
 func readPascalString(r io.Reader) (str string, read int, err error) {
 	b := make([]byte, 1)
 	if _, err := io.ReadFull(r, b); err != nil {
-- 
2.43.0


From 8240567b66be1f9414265baadd22894127539718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 19/23] fix: do not overflow when the sum of the Add blend mode
 exceeds the channel range

---
 blend/genblend.go | 18 +++++++++---------
 blend/zblends.go  | 30 +++++++++++++++---------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index 278ee7a..9368790 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -595,9 +595,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{define "drawMain2_SetNRGBA"}}
 {{if .OverMax}}
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1 + sb*a2 + db*a3) / a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1 + sg*a2 + dg*a3) / a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1 + sr*a2 + dr*a3) / a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2)+uint64(db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2)+uint64(dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2)+uint64(dr*a3))/uint64(a)) >> 8)
 {{else}}
 			dpix[j+3] = uint8(a >> 8)
 			dpix[j+2] = uint8(((b*a1 + sb*a2 + db*a3) / a) >> 8)
@@ -608,9 +608,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{define "drawMain2_SetRGBA"}}
 {{if .OverMax}}
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1 + sb*a2 + db*a3) / 0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1 + sg*a2 + dg*a3) / 0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1 + sr*a2 + dr*a3) / 0xffff) >> 8)
+			dpix[j+2] = uint8((clip6416((uint64(b)*uint64(a1)+uint64(sb*a2)+uint64(db*a3))/uint64(a)) * a / 0xffff) >> 8)
+			dpix[j+1] = uint8((clip6416((uint64(g)*uint64(a1)+uint64(sg*a2)+uint64(dg*a3))/uint64(a)) * a / 0xffff) >> 8)
+			dpix[j+0] = uint8((clip6416((uint64(r)*uint64(a1)+uint64(sr*a2)+uint64(dr*a3))/uint64(a)) * a / 0xffff) >> 8)
 {{else}}
 			dpix[j+3] = uint8(a >> 8)
 			dpix[j+2] = uint8(((b*a1 + sb*a2 + db*a3) / 0xffff) >> 8)
@@ -713,9 +713,9 @@ var draw{{.Name}}Fallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 {{.Code.To16}}
 {{end}}
 {{if .OverMax}}
-			out.R = uint16(clip6416(uint64(sr*a2 + dr*a3)/0xffff + uint64(r)*uint64(a1) / uint64(a)) * a / 0xffff)
-			out.G = uint16(clip6416(uint64(sg*a2 + dg*a3)/0xffff + uint64(g)*uint64(a1) / uint64(a)) * a / 0xffff)
-			out.B = uint16(clip6416(uint64(sb*a2 + db*a3)/0xffff + uint64(b)*uint64(a1) / uint64(a)) * a / 0xffff)
+			out.R = uint16(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2)+uint64(dr*a3))/uint64(a)) * a / 0xffff)
+			out.G = uint16(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2)+uint64(dg*a3))/uint64(a)) * a / 0xffff)
+			out.B = uint16(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2)+uint64(db*a3))/uint64(a)) * a / 0xffff)
 			out.A = uint16(a)
 {{else}}
 			out.R = uint16((r*a1 + sr*a2 + dr*a3) / 0xffff)
diff --git a/blend/zblends.go b/blend/zblends.go
index 888a303..3dc3722 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -5484,9 +5484,9 @@ var drawAddNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2)+uint64(db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2)+uint64(dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2)+uint64(dr*a3))/uint64(a)) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5543,9 +5543,9 @@ var drawAddRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2)+uint64(db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2)+uint64(dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2)+uint64(dr*a3))/uint64(a)) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5602,9 +5602,9 @@ var drawAddNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/0xffff) >> 8)
+			dpix[j+2] = uint8((clip6416((uint64(b)*uint64(a1)+uint64(sb*a2)+uint64(db*a3))/uint64(a)) * a / 0xffff) >> 8)
+			dpix[j+1] = uint8((clip6416((uint64(g)*uint64(a1)+uint64(sg*a2)+uint64(dg*a3))/uint64(a)) * a / 0xffff) >> 8)
+			dpix[j+0] = uint8((clip6416((uint64(r)*uint64(a1)+uint64(sr*a2)+uint64(dr*a3))/uint64(a)) * a / 0xffff) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5671,9 +5671,9 @@ var drawAddRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0,
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/0xffff) >> 8)
+			dpix[j+2] = uint8((clip6416((uint64(b)*uint64(a1)+uint64(sb*a2)+uint64(db*a3))/uint64(a)) * a / 0xffff) >> 8)
+			dpix[j+1] = uint8((clip6416((uint64(g)*uint64(a1)+uint64(sg*a2)+uint64(dg*a3))/uint64(a)) * a / 0xffff) >> 8)
+			dpix[j+0] = uint8((clip6416((uint64(r)*uint64(a1)+uint64(sr*a2)+uint64(dr*a3))/uint64(a)) * a / 0xffff) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5733,9 +5733,9 @@ var drawAddFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 
 			b = sb + db
 
-			out.R = uint16(clip6416(uint64(sr*a2+dr*a3)/0xffff+uint64(r)*uint64(a1)/uint64(a)) * a / 0xffff)
-			out.G = uint16(clip6416(uint64(sg*a2+dg*a3)/0xffff+uint64(g)*uint64(a1)/uint64(a)) * a / 0xffff)
-			out.B = uint16(clip6416(uint64(sb*a2+db*a3)/0xffff+uint64(b)*uint64(a1)/uint64(a)) * a / 0xffff)
+			out.R = uint16(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2)+uint64(dr*a3))/uint64(a)) * a / 0xffff)
+			out.G = uint16(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2)+uint64(dg*a3))/uint64(a)) * a / 0xffff)
+			out.B = uint16(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2)+uint64(db*a3))/uint64(a)) * a / 0xffff)
 			out.A = uint16(a)
 
 			dst.Set(x, y, &out)
-- 
2.43.0


From 2920d894a2e01ca85613e1940c48bda0643e3eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 20/23] fix: leave the destination untouched where a source
 blended through the generic interface is invisible

---
 blend/genblend.go |  3 ++
 blend/zblends.go  | 81 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/blend/genblend.go b/blend/genblend.go
index 9368790..0d01063 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -671,6 +671,9 @@ var draw{{.Name}}Fallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
diff --git a/blend/zblends.go b/blend/zblends.go
index 3dc3722..396bdc7 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -415,6 +415,9 @@ var drawNormalFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -910,6 +913,9 @@ var drawDarkenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -1357,6 +1363,9 @@ var drawMultiplyFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -1882,6 +1891,9 @@ var drawColorBurnFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -2410,6 +2422,9 @@ var drawLinearBurnFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -2880,6 +2895,9 @@ var drawDarkerColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -3379,6 +3397,9 @@ var drawLightenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -3826,6 +3847,9 @@ var drawScreenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -4351,6 +4375,9 @@ var drawColorDodgeFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -4804,6 +4831,9 @@ var drawLinearDodgeFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -5259,6 +5289,9 @@ var drawLighterColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -5698,6 +5731,9 @@ var drawAddFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -6193,6 +6229,9 @@ var drawOverlayFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -6775,6 +6814,9 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -7312,6 +7354,9 @@ var drawHardLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -7822,6 +7867,9 @@ var drawLinearLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -8479,6 +8527,9 @@ var drawVividLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -9166,6 +9217,9 @@ var drawPinLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -9988,6 +10042,9 @@ var drawHardMixFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -10552,6 +10609,9 @@ var drawDifferenceFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -10999,6 +11059,9 @@ var drawExclusionFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -11494,6 +11557,9 @@ var drawSubtractFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12031,6 +12097,9 @@ var drawDivideFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12469,6 +12538,9 @@ var drawHueFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12886,6 +12958,9 @@ var drawSaturationFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -13298,6 +13373,9 @@ var drawColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, sr
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -13709,6 +13787,9 @@ var drawLuminosityFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
-- 
2.43.0


From 71f21fc593d5c001c1614992e40b8d90c72d112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 21/23] fix: return colors that already have the type of the
 color model unchanged

---
 color/color.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/color/color.go b/color/color.go
index 95f762e..932d78b 100644
--- a/color/color.go
+++ b/color/color.go
@@ -85,7 +85,7 @@ func (c NGrayA) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nGrayAModel(c color.Color) color.Color {
-	if _, ok := c.(NGrayA64); ok {
+	if _, ok := c.(NGrayA); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
@@ -120,7 +120,7 @@ func (c NGrayA32) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nGrayA32Model(c color.Color) color.Color {
-	if _, ok := c.(NGrayA64); ok {
+	if _, ok := c.(NGrayA32); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
@@ -283,7 +283,7 @@ func (c NCMYKA80) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nCMYKA80Model(c color.Color) color.Color {
-	if _, ok := c.(NCMYKA); ok {
+	if _, ok := c.(NCMYKA80); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
-- 
2.43.0


From c4dcf184ecbd47fe91b1776e52d3e30ed041160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:48 +0000
Subject: [PATCH 22/23] fix: convert transparent and black colors to CMYK
 without a division by zero and without wrapping

---
 color/color.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/color/color.go b/color/color.go
index 932d78b..3cd6adb 100644
--- a/color/color.go
+++ b/color/color.go
@@ -250,11 +250,15 @@ func nCMYKAModel(c color.Color) color.Color {
 		return c
 	}
 	r, g, b, a := c.RGBA()
+	if a == 0 {
+		return NCMYKA{255, 255, 255, 255, 0}
+	}
+	if a != 0xffff {
+		r = r * 0xffff / a
+		g = g * 0xffff / a
+		b = b * 0xffff / a
+	}
 	cc, mm, yy, kk := color.RGBToCMYK(uint8(r>>8), uint8(g>>8), uint8(b>>8))
-	cc = uint8((uint32(cc) * 0xffff) / a)
-	mm = uint8((uint32(mm) * 0xffff) / a)
-	yy = uint8((uint32(yy) * 0xffff) / a)
-	kk = uint8((uint32(kk) * 0xffff) / a)
 	return NCMYKA{255 - cc, 255 - mm, 255 - yy, 255 - kk, uint8(a >> 8)}
 }
 
@@ -290,6 +294,11 @@ func nCMYKA80Model(c color.Color) color.Color {
 	if a == 0 {
 		return NCMYKA80{0xffff, 0xffff, 0xffff, 0xffff, 0}
 	}
+	if a != 0xffff {
+		r = r * 0xffff / a
+		g = g * 0xffff / a
+		b = b * 0xffff / a
+	}
 	w := r
 	if w < g {
 		w = g
@@ -298,19 +307,12 @@ func nCMYKA80Model(c color.Color) color.Color {
 		w = b
 	}
 	if w == 0 {
-		return NCMYKA80{0xffff, 0xffff, 0xffff, 0xffff, uint16(a)}
+		return NCMYKA80{0xffff, 0xffff, 0xffff, 0, uint16(a)}
 	}
 	cc := (w - r) * 0xffff / w
 	mm := (w - g) * 0xffff / w
 	yy := (w - b) * 0xffff / w
 	kk := 0xffff - w
-	if a == 0xffff {
-		return NCMYKA80{uint16(0xffff - cc), uint16(0xffff - mm), uint16(0xffff - yy), uint16(0xffff - kk), 0xffff}
-	}
-	cc = (cc * 0xffff) / a
-	mm = (mm * 0xffff) / a
-	yy = (yy * 0xffff) / a
-	kk = (kk * 0xffff) / a
 	return NCMYKA80{uint16(0xffff - cc), uint16(0xffff - mm), uint16(0xffff - yy), uint16(0xffff - kk), uint16(a)}
 }
 
-- 
2.43.0


From 93d15d76ef8ffc59582117a7ea4670832f9c3f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 23/23] fix: SoftLight rounded the coefficient of its
 dark-backdrop polynomial to a whole number

---
 blend/genblend.go |  4 ++--
 blend/zblends.go  | 36 ++++++++++++++++++------------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index 0d01063..4c1bb13 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -215,7 +215,7 @@ var blendModes = []mode{
 				ret = dest - (((maxValue - (src << 1)) * dest * 32897 >> 23) * (maxValue - dest) * 32897 >> 23);
 			} else {
 				if (dest < quarterValue) {
-					tmp = uint32((((int32(dest)<<4 - maxValue*12) * 32897 >> 23) * int32(dest) + maxValue*4) * int32(dest) * 32897 >> 23);
+					tmp = uint32(((int32(dest)<<4 - maxValue*12) * int32(dest) / maxValue + maxValue*4) * int32(dest) / maxValue);
 				} else {
 					tmp = sqrt(dest, maxValue);
 				}
@@ -227,7 +227,7 @@ var blendModes = []mode{
 				ret = dest - (((maxValue - (src << 1)) * dest / maxValue) * (maxValue - dest) / maxValue);
 			} else {
 				if (dest < quarterValue) {
-					tmp = uint32((((int32(dest)<<4 - maxValue*12) / maxValue) * int32(dest) + maxValue*4) * int32(dest) / maxValue);
+					tmp = uint32(((int64(dest)<<4 - maxValue*12) * int64(dest) / maxValue + maxValue*4) * int64(dest) / maxValue);
 				} else {
 					tmp = sqrt(dest, maxValue);
 				}
diff --git a/blend/zblends.go b/blend/zblends.go
index 396bdc7..81c8b70 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -6417,7 +6417,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				r = dr - (((0xff - (sr << 1)) * dr * 32897 >> 23) * (0xff - dr) * 32897 >> 23)
 			} else {
 				if dr < 0x40 {
-					tmp = uint32((((int32(dr)<<4-0xff*12)*32897>>23)*int32(dr) + 0xff*4) * int32(dr) * 32897 >> 23)
+					tmp = uint32(((int32(dr)<<4-0xff*12)*int32(dr)/0xff + 0xff*4) * int32(dr) / 0xff)
 				} else {
 					tmp = sqrt(dr, 0xff)
 				}
@@ -6428,7 +6428,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				g = dg - (((0xff - (sg << 1)) * dg * 32897 >> 23) * (0xff - dg) * 32897 >> 23)
 			} else {
 				if dg < 0x40 {
-					tmp = uint32((((int32(dg)<<4-0xff*12)*32897>>23)*int32(dg) + 0xff*4) * int32(dg) * 32897 >> 23)
+					tmp = uint32(((int32(dg)<<4-0xff*12)*int32(dg)/0xff + 0xff*4) * int32(dg) / 0xff)
 				} else {
 					tmp = sqrt(dg, 0xff)
 				}
@@ -6439,7 +6439,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				b = db - (((0xff - (sb << 1)) * db * 32897 >> 23) * (0xff - db) * 32897 >> 23)
 			} else {
 				if db < 0x40 {
-					tmp = uint32((((int32(db)<<4-0xff*12)*32897>>23)*int32(db) + 0xff*4) * int32(db) * 32897 >> 23)
+					tmp = uint32(((int32(db)<<4-0xff*12)*int32(db)/0xff + 0xff*4) * int32(db) / 0xff)
 				} else {
 					tmp = sqrt(db, 0xff)
 				}
@@ -6489,7 +6489,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6500,7 +6500,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6511,7 +6511,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6575,7 +6575,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6586,7 +6586,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6597,7 +6597,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6661,7 +6661,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6672,7 +6672,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6683,7 +6683,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6757,7 +6757,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6768,7 +6768,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6779,7 +6779,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6850,7 +6850,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6861,7 +6861,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6872,7 +6872,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
-- 
2.43.0

