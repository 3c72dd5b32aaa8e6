From 52437e442f4667b7e869b14db68b17bd1b173292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:40 +0000
Subject: [PATCH 01/18] fix: per-channel composite modes use the matching
 bottom channel

---
 composite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composite.go b/composite.go
index 0033617..4b099f1 100644
--- a/composite.go
+++ b/composite.go
@@ -171,8 +171,8 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 
 	return color.NRGBA64{
 		R: blend(bottom.A, bottom.R, ma, f(bottom.R, top.R)),
-		G: blend(bottom.A, bottom.G, ma, f(bottom.R, top.G)),
-		B: blend(bottom.A, bottom.B, ma, f(bottom.R, top.B)),
+		G: blend(bottom.A, bottom.G, ma, f(bottom.G, top.G)),
+		B: blend(bottom.A, bottom.B, ma, f(bottom.B, top.B)),
 		A: bottom.A,
 	}
 }
-- 
2.43.0


From 48b7d93b099618bdd2f58301a6246b6c765bdcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:40 +0000
Subject: [PATCH 02/18] fix: Burn composite saturates to black instead of white

---
 composite.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composite.go b/composite.go
index 4b099f1..4092109 100644
--- a/composite.go
+++ b/composite.go
@@ -271,13 +271,13 @@ func compositeDodge(x, y uint16) uint16 {
 func compositeBurn(x, y uint16) uint16 {
 	if y == 0 {
 		if x == 0xffff {
-			return 0
+			return 0xffff
 		}
 
-		return 0xffff
+		return 0
 	}
 
-	return clamp(0xffff - 0xffff*(0xffff-uint32(x))/uint32(y))
+	return 0xffff - clamp(0xffff*(0xffff-uint32(x))/uint32(y))
 }
 
 func compositeHardLight(x, y uint16) uint16 {
-- 
2.43.0


From ae07abe13ab2fbaa2fea4affbe232b939ba510de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:40 +0000
Subject: [PATCH 03/18] fix: GrainMerge composite subtracts one half

---
 composite.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 4092109..b10c2fa 100644
--- a/composite.go
+++ b/composite.go
@@ -304,7 +304,13 @@ func compositeGrainExtract(ax, ay uint16) uint16 {
 }
 
 func compositeGrainMerge(x, y uint16) uint16 {
-	return clamp(uint32(x) + uint32(y) + 0x7fff)
+	t := uint32(x) + uint32(y)
+
+	if t < 0x7fff {
+		return 0
+	}
+
+	return clamp(t - 0x7fff)
 }
 
 func compositeHue(bottom, top color.NRGBA64) color.Color {
-- 
2.43.0


From 593da41269a004429e79c1b6387d907450092816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:40 +0000
Subject: [PATCH 04/18] fix: Dissolve composite uses the alpha of the top
 colour

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index b10c2fa..cbc17ad 100644
--- a/composite.go
+++ b/composite.go
@@ -191,7 +191,7 @@ func compositeNormal(bottom, top color.NRGBA64) color.NRGBA64 {
 }
 
 func compositeDissolve(bottom, top color.NRGBA64) color.NRGBA64 {
-	if uint16(rand.Int31n(0xffff)) < bottom.A {
+	if uint16(rand.Int31n(0xffff)) < top.A {
 		top.A = 0xffff
 
 		return top
-- 
2.43.0


From 574d810193fb8feabdcc436cc4ca48e37ba1984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:41 +0000
Subject: [PATCH 05/18] fix: Hue, Saturation, Color, Value and Luminosity
 honour the alpha of both colours

---
 composite.go | 53 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/composite.go b/composite.go
index cbc17ad..d1de640 100644
--- a/composite.go
+++ b/composite.go
@@ -148,7 +148,7 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 	case CompositeValue:
 		return compositeValue(bottom, top)
 	case CompositeLuminosity:
-		return compositeColor(top, bottom)
+		return compositeLuminosity(bottom, top)
 	case CompositePlus:
 		return compositePlus(bottom, top)
 	case CompositeDestinationIn:
@@ -314,40 +314,59 @@ func compositeGrainMerge(x, y uint16) uint16 {
 }
 
 func compositeHue(bottom, top color.NRGBA64) color.Color {
-	br, bg, bb, _ := top.RGBA()
-
-	if br == bg && br == bb {
+	if top.R == top.G && top.R == top.B {
 		return bottom
 	}
 
 	a := lcolor.RGBToHSV(bottom)
-	b := lcolor.RGBToHSV(top)
-	a.H = b.H
+	a.H = lcolor.RGBToHSV(top).H
 
-	return a
+	return blendComponent(bottom, top, a.ToNRGBA())
 }
 
 func compositeSaturation(bottom, top color.NRGBA64) color.Color {
 	a := lcolor.RGBToHSV(bottom)
-	b := lcolor.RGBToHSV(top)
-	a.S = b.S
-	return a
+	a.S = lcolor.RGBToHSV(top).S
+
+	return blendComponent(bottom, top, a.ToNRGBA())
 }
 
 func compositeColor(bottom, top color.NRGBA64) color.Color {
-	a := lcolor.RGBToHSL(bottom)
-	b := lcolor.RGBToHSL(top)
-	b.L = a.L
+	a := lcolor.RGBToHSL(top)
+	a.L = lcolor.RGBToHSL(bottom).L
 
-	return b
+	return blendComponent(bottom, top, a.ToNRGBA())
 }
 
 func compositeValue(bottom, top color.NRGBA64) color.Color {
 	a := lcolor.RGBToHSV(bottom)
-	b := lcolor.RGBToHSV(top)
-	a.V = b.V
+	a.V = lcolor.RGBToHSV(top).V
+
+	return blendComponent(bottom, top, a.ToNRGBA())
+}
+
+func compositeLuminosity(bottom, top color.NRGBA64) color.Color {
+	a := lcolor.RGBToHSL(bottom)
+	a.L = lcolor.RGBToHSL(top).L
+
+	return blendComponent(bottom, top, a.ToNRGBA())
+}
 
-	return a
+// blendComponent mixes c, the bottom colour with a component taken from the
+// top, into the bottom colour.
+func blendComponent(bottom, top, c color.NRGBA64) color.Color {
+	if bottom.A == 0 {
+		return color.NRGBA64{}
+	}
+
+	ma := internal.Min(bottom.A, top.A)
+
+	return color.NRGBA64{
+		R: blend(bottom.A, bottom.R, ma, c.R),
+		G: blend(bottom.A, bottom.G, ma, c.G),
+		B: blend(bottom.A, bottom.B, ma, c.B),
+		A: bottom.A,
+	}
 }
 
 func compositePlus(bottom, top color.NRGBA64) color.NRGBA64 {
-- 
2.43.0


From b2b811fed138cd15266fc4c56ddaabd8d5f88cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:41 +0000
Subject: [PATCH 06/18] fix: Opaque looks at exactly the pixels of the image

---
 grayalpha.go    |  8 +++++---
 indexedalpha.go | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/grayalpha.go b/grayalpha.go
index 2349a4b..82c17fe 100644
--- a/grayalpha.go
+++ b/grayalpha.go
@@ -52,9 +52,11 @@ func (g *GrayAlpha) GrayAlphaAt(x, y int) lcolor.GrayAlpha {
 
 // Opaque returns true if all pixels have full alpha.
 func (g *GrayAlpha) Opaque() bool {
-	for _, c := range g.Pix {
-		if c.A != 255 {
-			return false
+	for y := g.Rect.Min.Y; y < g.Rect.Max.Y; y++ {
+		for x := g.Rect.Min.X; x < g.Rect.Max.X; x++ {
+			if g.GrayAlphaAt(x, y).A != 255 {
+				return false
+			}
 		}
 	}
 
diff --git a/indexedalpha.go b/indexedalpha.go
index dd51a6f..36fab2b 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -66,13 +66,15 @@ func (p *PalettedAlpha) IndexAlphaAt(x, y int) lcolor.IndexedAlpha {
 
 // Opaque returns true if the image is completely opaque.
 func (p *PalettedAlpha) Opaque() bool {
-	for _, c := range p.Pix {
-		if c.A != 255 {
-			return true
+	for y := p.Rect.Min.Y; y < p.Rect.Max.Y; y++ {
+		for x := p.Rect.Min.X; x < p.Rect.Max.X; x++ {
+			if p.IndexAlphaAt(x, y).A != 255 {
+				return false
+			}
 		}
 	}
 
-	return false
+	return true
 }
 
 // PixOffset returns the index of the Pix array corresponding to the given
-- 
2.43.0


From a7a52618bae1e0187d6c33d5d75cdd4bd0207fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:41 +0000
Subject: [PATCH 07/18] fix: HSLA to RGB conversion uses the chroma of the
 lightness

---
 lcolor/hsl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcolor/hsl.go b/lcolor/hsl.go
index b623cef..978d35e 100644
--- a/lcolor/hsl.go
+++ b/lcolor/hsl.go
@@ -57,13 +57,13 @@ func (h HSLA) ToNRGBA() color.NRGBA64 {
 	}
 
 	c := uint32(h.L) << 1
-	if c < 0x7fff {
+	if c > 0xffff {
 		c = 0x1fffe - c
 	}
 
 	c = c * uint32(h.S) / 0xffff
 
-	return hcmaToColour(uint32(h.H), c, h.L-uint16(c>>2), h.A)
+	return hcmaToColour(uint32(h.H), c, h.L-uint16(c>>1), h.A)
 }
 
 // HSVA represents the Hue, Saturation, Value and Alpha of a pixel.
-- 
2.43.0


From ec92f3098564ac686911b2085bea88e90e873b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:32 +0000
Subject: [PATCH 08/18] fix: cropping a layer at the top or left keeps its
 content in place

---
 image.go | 11 +++++++++++
 layer.go | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 misc.go  | 11 +++++++++++
 3 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/image.go b/image.go
index 41f10b7..bb60510 100644
--- a/image.go
+++ b/image.go
@@ -69,3 +69,14 @@ func (g Image) SubImage(r image.Rectangle) image.Image {
 
 	return h
 }
+
+func (g Image) shift(d image.Point) Image {
+	h := make(Image, len(g))
+
+	for n, l := range g {
+		l.LayerBounds = l.LayerBounds.Sub(d)
+		h[n] = l
+	}
+
+	return h
+}
diff --git a/layer.go b/layer.go
index f156769..9bae464 100644
--- a/layer.go
+++ b/layer.go
@@ -34,7 +34,50 @@ func (l Layer) SubImage(r image.Rectangle) image.Image {
 // SubImageLayer returns an image representing the portion of the image p
 // visible through r. The returned value shares pixels with the original image.
 func (l Layer) SubImageLayer(r image.Rectangle) Layer {
-	l.LayerBounds = r.Intersect(l.LayerBounds)
+	r = r.Intersect(l.LayerBounds)
+
+	if d := r.Min.Sub(l.LayerBounds.Min); !r.Empty() && d != (image.Point{}) {
+		l.Image = shiftImage(l.Image, d)
+	}
+
+	l.LayerBounds = r
 
 	return l
 }
+
+// shiftedImage is an image moved by Offset towards the origin.
+type shiftedImage struct {
+	image.Image
+	Offset image.Point
+}
+
+// Bounds returns the limits of the moved image.
+func (s shiftedImage) Bounds() image.Rectangle {
+	b := s.Image.Bounds().Sub(s.Offset)
+
+	return b.Intersect(image.Rectangle{Max: b.Max})
+}
+
+// At returns the colour at the specified coords.
+func (s shiftedImage) At(x, y int) color.Color {
+	return s.Image.At(x+s.Offset.X, y+s.Offset.Y)
+}
+
+func shiftImage(im image.Image, d image.Point) image.Image {
+	switch im := im.(type) {
+	case Image:
+		return im.shift(d)
+	case *Image:
+		return im.shift(d)
+	case Text:
+		return Text{Image: shiftImage(im.Image, d), TextData: im.TextData}
+	case *Text:
+		return Text{Image: shiftImage(im.Image, d), TextData: im.TextData}
+	case MaskedImage:
+		return im.shift(d)
+	case *MaskedImage:
+		return im.shift(d)
+	}
+
+	return shiftedImage{Image: im, Offset: d}
+}
diff --git a/misc.go b/misc.go
index 1e2d08f..28cf35a 100644
--- a/misc.go
+++ b/misc.go
@@ -20,6 +20,17 @@ func (m MaskedImage) At(x, y int) color.Color {
 	return transparency(m.Image.At(x, y), m.Mask.GrayAt(x, y).Y)
 }
 
+func (m MaskedImage) shift(d image.Point) MaskedImage {
+	return MaskedImage{
+		Image: shiftImage(m.Image, d),
+		Mask: &image.Gray{
+			Pix:    m.Mask.Pix,
+			Stride: m.Mask.Stride,
+			Rect:   m.Mask.Rect.Sub(d),
+		},
+	}
+}
+
 // Text represents a text layer.
 type Text struct {
 	image.Image
-- 
2.43.0


From 99d9f2ed808086a75e0c123f27e71b1717bab137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:55 +0000
Subject: [PATCH 09/18] fix: readerAt reads at the requested offset, fills the
 buffer and never keeps its lock

---
 internal/bufioToReader.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/internal/bufioToReader.go b/internal/bufioToReader.go
index 0a64028..5ae541b 100644
--- a/internal/bufioToReader.go
+++ b/internal/bufioToReader.go
@@ -20,27 +20,20 @@ type bufioReader struct {
 type readerAt struct {
 	readMutex  sync.Mutex
 	ReadSeeker io.ReadSeeker
-	pos        int64
 }
 
 func (r *readerAt) ReadAt(p []byte, offset int64) (int, error) {
 	r.readMutex.Lock()
+	defer r.readMutex.Unlock()
 
-	var (
-		n   int
-		err error
-	)
-
-	if offset != r.pos {
-		r.pos, err = r.ReadSeeker.Seek(offset, io.SeekStart)
-		if err != nil {
-			return 0, err
-		}
+	if _, err := r.ReadSeeker.Seek(offset, io.SeekStart); err != nil {
+		return 0, err
 	}
 
-	n, err = r.ReadSeeker.Read(p)
-	r.pos += int64(n)
-	r.readMutex.Unlock()
+	n, err := io.ReadFull(r.ReadSeeker, p)
+	if err == io.ErrUnexpectedEOF {
+		err = io.EOF
+	}
 
 	return n, err
 }
-- 
2.43.0


From 4d02673907cec8e6fed9125b44ff1cf3f32040ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:44 +0000
Subject: [PATCH 10/18] fix: ORA opacity is written as opacity and read back
 rounded

---
 ora/encode.go | 2 +-
 ora/stack.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index f1bd534..f6f0c5a 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -195,7 +195,7 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 
 	if lim.Transparency != 0 {
 		attrs = append(attrs, xml.Attr{
-			Name:  xml.Name{Local: "visibility"},
+			Name:  xml.Name{Local: "opacity"},
 			Value: strconv.FormatFloat(float64(255-lim.Transparency)/255, 'f', -1, 64),
 		})
 	}
diff --git a/ora/stack.go b/ora/stack.go
index ef75333..f4e4fed 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -125,7 +125,7 @@ func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
 				return "", err
 			}
 
-			l.Transparency = uint8(255 * (1 - o))
+			l.Transparency = uint8(255*(1-o) + 0.5)
 		case "visibility":
 			l.Invisible = a.Value == "hidden"
 		case "composite-op":
-- 
2.43.0


From 9f062371968efb44ced4d2bdff6db44bbcac6a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:44 +0000
Subject: [PATCH 11/18] fix: ORA encoding writes negative layer positions

---
 ora/encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index f6f0c5a..033ba52 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -172,14 +172,14 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 		})
 	}
 
-	if b.X > 0 {
+	if b.X != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "x"},
 			Value: strconv.Itoa(b.X),
 		})
 	}
 
-	if b.Y > 0 {
+	if b.Y != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "y"},
 			Value: strconv.Itoa(b.Y),
-- 
2.43.0


From c874288a310e0461b46f9ebcbfbbbdc276e67091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:44 +0000
Subject: [PATCH 12/18] fix: ORA Encode reports a failure to finish the archive

---
 ora/encode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 033ba52..e17c801 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -21,7 +21,6 @@ func Encode(w io.Writer, m image.Image) error {
 	lim.LayerBounds.Max.Y = b.Dy()
 
 	zw := zip.NewWriter(w)
-	defer zw.Close()
 
 	fw, err := zw.CreateHeader(&zip.FileHeader{
 		Name:   "mimetype",
@@ -65,7 +64,11 @@ func Encode(w io.Writer, m image.Image) error {
 		return err
 	}
 
-	return writeImage(e, zw, m, lim)
+	if err = writeImage(e, zw, m, lim); err != nil {
+		return err
+	}
+
+	return zw.Close()
 }
 
 func toLayer(m image.Image) limage.Layer {
-- 
2.43.0


From 0accb481fc26feb74aa9bd80ca08598c035ccba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:44 +0000
Subject: [PATCH 13/18] fix: ORA Encode writes a single image as a one layer
 stack

---
 ora/encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ora/encode.go b/ora/encode.go
index e17c801..3a87ffc 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -20,6 +20,12 @@ func Encode(w io.Writer, m image.Image) error {
 	lim.LayerBounds.Max.X = b.Dx()
 	lim.LayerBounds.Max.Y = b.Dy()
 
+	switch lim.Image.(type) {
+	case limage.Image, *limage.Image:
+	default: // the root of the stack document must be a stack.
+		lim.Image = limage.Image{lim}
+	}
+
 	zw := zip.NewWriter(w)
 
 	fw, err := zw.CreateHeader(&zip.FileHeader{
-- 
2.43.0


From f1b1b1b88f4f92aae37466cb72dc81828b6bb174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:58 +0000
Subject: [PATCH 14/18] fix: ORA thumbnail samples the whole image and is never
 empty

---
 ora/encode.go    | 10 +---------
 ora/thumbnail.go | 34 +++++++++++++++++++++++++---------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 3a87ffc..cdbb3c1 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -114,15 +114,7 @@ func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer)
 	} else if fw, err = zw.Create("Thumbnails/thumbnail.png"); err != nil {
 		return err
 	} else if lim.LayerBounds.Max.X > 256 || lim.LayerBounds.Max.Y > 256 {
-		var scale float64
-
-		if lim.LayerBounds.Max.X > lim.LayerBounds.Max.Y {
-			scale = float64(lim.LayerBounds.Max.X) / 256
-		} else {
-			scale = float64(lim.LayerBounds.Max.Y) / 256
-		}
-
-		m = thumbnail{Image: m, scale: scale}
+		m = newThumbnail(m)
 	}
 
 	return png.Encode(fw, m)
diff --git a/ora/thumbnail.go b/ora/thumbnail.go
index cf12819..25307d3 100644
--- a/ora/thumbnail.go
+++ b/ora/thumbnail.go
@@ -5,21 +5,37 @@ import (
 	"image/color"
 )
 
+const thumbnailSize = 256
+
 type thumbnail struct {
 	image.Image
-	scale float64
+	size image.Point
 }
 
-func (t thumbnail) Bounds() image.Rectangle {
-	b := t.Image.Bounds()
-	b.Min.X = int(float64(b.Min.X) / t.scale)
-	b.Min.Y = int(float64(b.Min.Y) / t.scale)
-	b.Max.X = int(float64(b.Max.X) / t.scale)
-	b.Max.Y = int(float64(b.Max.Y) / t.scale)
+func newThumbnail(m image.Image) thumbnail {
+	s := m.Bounds().Size()
+
+	if s.X > s.Y {
+		s.X, s.Y = thumbnailSize, thumbnailSize*s.Y/s.X
+	} else {
+		s.X, s.Y = thumbnailSize*s.X/s.Y, thumbnailSize
+	}
+
+	if s.X == 0 {
+		s.X = 1
+	} else if s.Y == 0 {
+		s.Y = 1
+	}
 
-	return b
+	return thumbnail{Image: m, size: s}
+}
+
+func (t thumbnail) Bounds() image.Rectangle {
+	return image.Rectangle{Max: t.size}
 }
 
 func (t thumbnail) At(x, y int) color.Color {
-	return t.Image.At(int(float64(x)/t.scale), int(float64(x)/t.scale))
+	b := t.Image.Bounds()
+
+	return t.Image.At(b.Min.X+x*b.Dx()/t.size.X, b.Min.Y+y*b.Dy()/t.size.Y)
 }
-- 
2.43.0


From d21ddaa0f05742d6e5826bcb6a4aab0b84b63d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:58 +0000
Subject: [PATCH 15/18] fix: ORA layers keep their place when clipped or inside
 an offset group

---
 ora/stack.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ora/stack.go b/ora/stack.go
index f4e4fed..98f2105 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -93,9 +93,18 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 		}
 	}
 
-	l.LayerBounds = l.Image.Bounds().Add(l.LayerBounds.Min).Intersect(image.Rectangle{Max: d.limits.Add(offset)}).Sub(offset)
+	b := l.Image.Bounds()
+	b = b.Union(image.Rectangle{Max: b.Max})
 
-	return l, nil
+	if g, ok := l.Image.(limage.Image); ok && b.Min != (image.Point{}) {
+		for n := range g {
+			g[n].LayerBounds = g[n].LayerBounds.Sub(b.Min)
+		}
+	}
+
+	l.LayerBounds = b.Add(l.LayerBounds.Min)
+
+	return l.SubImageLayer(image.Rectangle{Max: d.limits}.Sub(offset)), nil
 }
 
 func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
-- 
2.43.0


From e850e107a2598c4e7d1a788bcbd7b913a856dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 16/18] fix: hard light wraps to white for a black bottom under
 a mid-grey top

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index d1de640..ebe30f8 100644
--- a/composite.go
+++ b/composite.go
@@ -281,7 +281,7 @@ func compositeBurn(x, y uint16) uint16 {
 }
 
 func compositeHardLight(x, y uint16) uint16 {
-	if y < 0x7fff {
+	if y <= 0x7fff {
 		return uint16(uint32(x) * (uint32(y) << 1) / 0xffff)
 	}
 
-- 
2.43.0


From bb3c702c4f8a12c76d8024822b3ac5771a6d3dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:00 +0000
Subject: [PATCH 17/18] fix: xcf: write the luminance mode, and do not write
 luminosity as colour erase

---
 xcf/layer_encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 22c49e2..700a264 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -153,8 +153,6 @@ func modeID(mode limage.Composite) uint32 {
 		return 20
 	case limage.CompositeGrainMerge:
 		return 21
-	case limage.CompositeLuminosity:
-		return 22
 	case limage.CompositeColorErase:
 		return 22
 	case limage.CompositeChroma:
@@ -173,6 +171,8 @@ func modeID(mode limage.Composite) uint32 {
 		return 52
 	case limage.CompositeLinearBurn:
 		return 53
+	case limage.CompositeLuminance:
+		return 56
 	case limage.CompositeErase:
 		return 58
 	case limage.CompositeMerge:
-- 
2.43.0


From bf6c377dc5e4ea541dcd2c192de68a6f6faa0b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:46 +0000
Subject: [PATCH 18/18] fix: xcf: palette number of translucent indexed pixels
 is that of their own colour

The encoder looked the colour up multiplied by its alpha, which gave the
number of another, darker entry.
---
 xcf/image_encode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 0d58042..7991278 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -86,8 +86,8 @@ func (e *encoder) grayToBuf(c color.Color) {
 }
 
 func (e *encoder) paletteAlphaToBuf(c color.Color) {
-	r, g, b, a := c.RGBA()
-	i := e.colourPalette.Index(lcolor.RGB{R: uint8(r), G: uint8(g), B: uint8(b)})
+	rgba := color.NRGBAModel.Convert(c).(color.NRGBA)
+	i := e.colourPalette.Index(lcolor.RGB{R: rgba.R, G: rgba.G, B: rgba.B})
 	e.colourBuf[0] = uint8(i)
-	e.colourBuf[1] = uint8(a)
+	e.colourBuf[1] = rgba.A
 }
-- 
2.43.0

