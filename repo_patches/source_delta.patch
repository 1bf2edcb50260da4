From c3f954d7b693ba889e7bfdefbe907079fd115447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 01/25] fix: use byte mode for digits or letters followed by
 kanji
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The detector moved on to kanji mode without looking again at the digits and
letters before the first kanji, so that "1世" was encoded as one kanji and
the digit was lost.
---
 chardet.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/chardet.go b/chardet.go
index 8035b9f..cc21115 100644
--- a/chardet.go
+++ b/chardet.go
@@ -75,6 +75,16 @@ func analyzeEncodeModeFromRaw(raw string) (encMode, error) {
 		goto reAnalyze
 	}
 
+	// A character accepted by a lower mode (such as a digit) is not necessarily a kanji, so that all
+	// of them must be checked again before EncModeKanji can be used.
+	if mode == EncModeKanji {
+		for _, r := range raw {
+			if !analyzeJP(r) {
+				return EncModeByte, nil
+			}
+		}
+	}
+
 	if mode > EncModeByte {
 		// If the mode overflow the EncModeKanji, means we can't encode the input data.
 		return EncModeNone, ErrNotSupportCharacter
-- 
2.43.0


From fac83895be6c8b607654fa032190001b4eece630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 02/25] fix: compare module colors in penalty rules 2 and 3

The rules compared complete module values including what the module is used
for, so that areas and finder-like patterns across data, finder, timing and
format modules were not counted and a mask with a higher penalty was chosen.
---
 mask_evaluation.go |  2 ++
 utilities.go       | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index 2c75a6b..eb9ccac 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -79,6 +79,7 @@ func rule2(mat *Matrix) int {
 			s1, _ = mat.at(x+1, y)
 			s2, _ = mat.at(x, y+1)
 			s3, _ = mat.at(x+1, y+1)
+			s0, s1, s2, s3 = colorOf(s0), colorOf(s1), colorOf(s2), colorOf(s3)
 
 			if s0 == s1 && s2 == s3 && s1 == s2 {
 				score += 3
@@ -115,6 +116,7 @@ func rule3(mat *Matrix) (score int) {
 	for i := 0; i < dimension; i++ {
 		col := mat.Col(i)
 		row := mat.Row(i)
+		col, row = colorsOf(col), colorsOf(row)
 
 		// DONE(@yeqown): statePattern1 and statePattern2 are fixed, so maybe kmpGetNext
 		// could cache result to speed up.
diff --git a/utilities.go b/utilities.go
index 5ec026a..94f97ca 100644
--- a/utilities.go
+++ b/utilities.go
@@ -6,6 +6,26 @@ func samestate(s1, s2 qrvalue) bool {
 	return s1.qrbool() == s2.qrbool()
 }
 
+// colorOf drops the qrtype from v and keeps its color only, since the penalty rules are about dark
+// and light modules no matter what they are used for.
+func colorOf(v qrvalue) qrvalue {
+	if v.qrbool() {
+		return QRValue_DATA_V1
+	}
+
+	return QRValue_DATA_V0
+}
+
+// colorsOf returns colorOf each of line in a new slice.
+func colorsOf(line []qrvalue) []qrvalue {
+	colors := make([]qrvalue, len(line))
+	for i, v := range line {
+		colors[i] = colorOf(v)
+	}
+
+	return colors
+}
+
 func abs(x int) int {
 	if x < 0 {
 		return -x
-- 
2.43.0


From 0074adf1321f3d8d8b1838135e6df07a5f7343bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 03/25] fix: do not take 55.4% dark modules for exactly 55% in
 penalty rule 4

The percentage is truncated to an integer before it is compared with the
multiples of five, so that 55.4% was rated with 50 as previous multiple and
got no penalty.
---
 mask_evaluation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index eb9ccac..59fb0b0 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -166,6 +166,11 @@ func rule4(mat *Matrix) int {
 		step = 1
 	}
 
+	// the ratio is cut off to an integer, only an exact multiple of five has its neighbour as previous one.
+	if (dark*100)%total != 0 {
+		step = 0
+	}
+
 	previous := abs((ratio/5-step)*5 - 50)
 	next := abs((ratio/5+1-step)*5 - 50)
 
-- 
2.43.0


From b89f51cdf749b691effd45acc34d927564112f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 04/25] fix: encode named string and byte slice types instead
 of panicking

---
 qrcode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index 0852331..e344a39 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -34,7 +34,8 @@ func toBytes[T ~string | ~[]byte](v T) []byte {
 	case []byte:
 		return x
 	default:
-		panic("unreachable")
+		// a named string or byte slice type
+		return []byte(v)
 	}
 }
 
-- 
2.43.0


From 68ee868f0fc91d81980af4adca3f6e28cebb9fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 05/25] fix: return an error for an encoding mode that does not
 exist instead of panicking

---
 qrcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index e344a39..4b54d77 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -55,7 +55,7 @@ func validateEncodingMode(mode encMode, text string) error {
 		// Byte mode can encode any character
 		return nil
 	default:
-		return nil
+		return errMissMatchedEncodeType
 	}
 
 	for _, r := range text {
-- 
2.43.0


From 942de7cc418c1a2acdb204fd50a488bf3a53f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 06/25] fix: choose the first of several masks with the lowest
 penalty whatever goroutine finishes first

---
 qrcode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qrcode.go b/qrcode.go
index 4b54d77..09b26a8 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -711,6 +711,9 @@ func (q *QRCode) masking() {
 		if c.Score < lowScore {
 			lowScore = c.Score
 			markMatsIdx = c.Idx
+		} else if c.Score == lowScore && c.Idx < markMatsIdx {
+			// scores arrive in any order: of equal ones take the first mask
+			markMatsIdx = c.Idx
 		}
 	}
 
-- 
2.43.0


From b74cac71a2ba04fa785a731102ebb32b137f8d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 07/25] fix: centre logos whose bounds do not start at (0, 0)

---
 writer/standard/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 65d6bc4..4652600 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -235,7 +235,8 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 
 	// DONE(@yeqown): calculate the xOffset and yOffset which point(xOffset, yOffset)
 	// should icon upper-left to start
-	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2, (h-logoHeight)/2)
+	// and the origin of a logo (a sub-image, for example) may be elsewhere than (0, 0).
+	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2-opt.logo.Bounds().Min.X, (h-logoHeight)/2-opt.logo.Bounds().Min.Y)
 
 done:
 	return dc.Image()
-- 
2.43.0


From c36b137e0fb5125d74dfb94d204087730b1ebee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 08/25] fix: clear the logo's own blocks, not their mirror
 images, for neighbours in the safe zone

---
 writer/standard/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 4652600..8e2256e 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -160,7 +160,7 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	if logoValid && opt.logoSafeZone {
 		mat.Iterate(qrcode.IterDirection_ROW, func(x int, y int, v qrcode.QRValue) {
 			if blockOverlapsLogo(x, y, opt.qrBlockWidth(), left, top, w, h, logoWidth, logoHeight) {
-				bitMap[x][y] = false
+				bitMap[y][x] = false
 			}
 		})
 	}
-- 
2.43.0


From ee291ba67ea0aab45d85fb71513ddd7a2f38facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 09/25] fix: draw data modules when blocks are too narrow for a
 halftone picture

---
 writer/standard/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 8e2256e..9533abf 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -133,7 +133,8 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 		halftoneImg image.Image
 		halftoneW   = float64(opt.qrBlockWidth()) / 3.0
 	)
-	if opt.halftoneImg != nil {
+	// a block narrower than 3 pixels can not be divided into 3x3 cells, it's drawn as without halftone.
+	if opt.halftoneImg != nil && opt.qrBlockWidth() >= 3 {
 		halftoneImg = imgkit.Binaryzation(
 			imgkit.Scale(opt.halftoneImg, image.Rect(0, 0, mat.Width()*3, mat.Width()*3), nil),
 			60,
-- 
2.43.0


From c77055f108808e110c242999b92df7eea8cdd7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 10/25] fix: draw the cells of a halftone picture at whole
 pixels

---
 writer/standard/writer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 9533abf..d35dab4 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -131,8 +131,12 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 
 	var (
 		halftoneImg image.Image
-		halftoneW   = float64(opt.qrBlockWidth()) / 3.0
+		// edges of the 3x3 cells in a block, in whole pixels so that cells neither blend nor leave gaps.
+		halftoneEdges [4]int
 	)
+	for i := range halftoneEdges {
+		halftoneEdges[i] = (2*i*opt.qrBlockWidth() + 3) / 6
+	}
 	// a block narrower than 3 pixels can not be divided into 3x3 cells, it's drawn as without halftone.
 	if opt.halftoneImg != nil && opt.qrBlockWidth() >= 3 {
 		halftoneImg = imgkit.Binaryzation(
@@ -195,13 +199,12 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 
 			ctx2 := &DrawContext{
 				Context: ctx.Context,
-				w:       int(halftoneW),
-				h:       int(halftoneW),
 			}
 			// only halftone image enabled and current block is Data.
 			for i := 0; i < 3; i++ {
 				for j := 0; j < 3; j++ {
-					ctx2.x, ctx2.y = ctx.x+float64(i)*halftoneW, ctx.y+float64(j)*halftoneW
+					ctx2.x, ctx2.y = ctx.x+float64(halftoneEdges[i]), ctx.y+float64(halftoneEdges[j])
+					ctx2.w, ctx2.h = halftoneEdges[i+1]-halftoneEdges[i], halftoneEdges[j+1]-halftoneEdges[j]
 					if i == 1 && j == 1 {
 						ctx2.color = ctx.color
 					} else {
-- 
2.43.0


From e72ffd345ef5850235b89bed15e57ba4e728efaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 11/25] fix: keep the background colour when saving with a
 transparent background

---
 writer/standard/image_option.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index 9efd4d2..117c1d4 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -72,11 +72,12 @@ func (oo *outputImageOptions) backgroundColor() color.RGBA {
 		return color_WHITE
 	}
 
+	bg := oo.bgColor
 	if oo.bgTransparent {
-		(&oo.bgColor).A = 0x00
+		bg.A = 0x00
 	}
 
-	return oo.bgColor
+	return bg
 }
 
 func (oo *outputImageOptions) logoImage() image.Image {
@@ -148,15 +149,11 @@ func (oo *outputImageOptions) translateToRGBA(v qrcode.QRValue) (rgba color.RGBA
 	}
 
 	if oo.bgTransparent {
-		(&oo.bgColor).A = 0x00
-		// color.RGBA is pre-multiplied by alpha, so set RGB to 0 when fully transparent.
-		(&oo.bgColor).R = 0x00
-		(&oo.bgColor).G = 0x00
-		(&oo.bgColor).B = 0x00
+		// color.RGBA is pre-multiplied by alpha, so RGB must be 0 when fully transparent.
+		return color.RGBA{}
 	}
-	rgba = oo.bgColor
 
-	return rgba
+	return oo.bgColor
 }
 
 // parseFromHex convert hex string into color.RGBA
-- 
2.43.0


From 276a03a07cd0ace3b6175becfa25749c6032afec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 12/25] fix: reject hex colours that contain blanks

---
 writer/standard/image_option.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index 117c1d4..fcd8171 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 	"image"
 	"image/color"
+	"strings"
+	"unicode"
 
 	"github.com/yeqown/go-qrcode/v2"
 )
@@ -178,6 +180,10 @@ func parseFromHex(s string) color.RGBA {
 	default:
 		err = fmt.Errorf("invalid length, must be 7 or 4")
 	}
+	// Sscanf skips blanks
+	if err == nil && strings.IndexFunc(s, unicode.IsSpace) >= 0 {
+		err = fmt.Errorf("invalid color %q, must not contain blanks", s)
+	}
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From d33a709ae0afe10144fcfdc49320c717c8f2579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 13/25] fix: take the high byte of colour components that have
 16 significant bits

---
 writer/standard/image_option.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index fcd8171..accca10 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -197,6 +197,11 @@ func parseFromColor(c color.Color) color.RGBA {
 		return rgba
 	}
 
+	// keep Gray16 as it always has been: its value is taken as an 8-bit one.
+	if _, ok = c.(color.Gray16); !ok {
+		return color.RGBAModel.Convert(c).(color.RGBA)
+	}
+
 	r, g, b, a := c.RGBA()
 	return color.RGBA{
 		R: uint8(r),
-- 
2.43.0


From 0fe234bd3247520b6b27a9d9845e511809d150d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 14/25] fix: convert images whose bounds do not start at (0, 0)

---
 writer/standard/imgkit/process.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/writer/standard/imgkit/process.go b/writer/standard/imgkit/process.go
index 5cbfd87..3ed6f7e 100644
--- a/writer/standard/imgkit/process.go
+++ b/writer/standard/imgkit/process.go
@@ -15,10 +15,9 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 
 	gray := Gray(src)
 	bounds := src.Bounds()
-	height, width := bounds.Max.Y-bounds.Min.Y, bounds.Max.X-bounds.Min.X
 
-	for i := 0; i < height; i++ {
-		for j := 0; j < width; j++ {
+	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
+		for j := bounds.Min.X; j < bounds.Max.X; j++ {
 			// var rgb int = int(gray[i][j][0]) + int(gray[i][j][1]) + int(gray[i][j][2])
 			if gray.At(j, i).(color.Gray).Y > threshold {
 				gray.Set(j, i, color.White)
@@ -33,11 +32,10 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 
 func Gray(src image.Image) *image.Gray {
 	bounds := src.Bounds()
-	height, width := bounds.Max.Y-bounds.Min.Y, bounds.Max.X-bounds.Min.X
 	gray := image.NewGray(bounds)
 
-	for i := 0; i < height; i++ {
-		for j := 0; j < width; j++ {
+	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
+		for j := bounds.Min.X; j < bounds.Max.X; j++ {
 			c := color.GrayModel.Convert(src.At(j, i))
 			gray.SetGray(j, i, c.(color.Gray))
 		}
-- 
2.43.0


From 118062fa68966d9ffcbcf51cd0f605d9ab055cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:53 +0000
Subject: [PATCH 15/25] fix: use the stripe ratio of horizontal stripes

---
 writer/standard/shapes/blocks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/shapes/blocks.go b/writer/standard/shapes/blocks.go
index 31322f8..c5daf3e 100644
--- a/writer/standard/shapes/blocks.go
+++ b/writer/standard/shapes/blocks.go
@@ -131,7 +131,7 @@ func HStripeBlock(stripeRatio float64) func(ctx *standard.DrawContext) {
 		fw, fh := float64(w), float64(h)
 		x, y := ctx.UpperLeft()
 		cx, cy := x+fw/2, y+fh/2
-		r := fw * 0.9 / 2
+		r := fw * stripeRatio / 2
 
 		ctx.SetColor(ctx.Color())
 
-- 
2.43.0


From c5a8e30919a5a92c1f932fd1af487e609c60ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 16/25] fix: leave translucent pixels as they are when applying
 a gradient

---
 writer/standard/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index d35dab4..5082e24 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -223,7 +223,8 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	// Gradient fill
 	if opt.qrGradient != nil {
 		img := opt.qrGradient.applyGradient(dc.Image(), opt.qrColor)
-		dc.DrawImage(img, 0, 0)
+		// go on with this image, drawing it over the other would change translucent pixels.
+		dc = gg.NewContextForRGBA(img)
 	}
 
 	if opt.logoImage() == nil {
-- 
2.43.0


From 143f94ed4e3750c44f5daa77303508f7aba1a207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 17/25] fix: use the default for shape parameters that are not
 numbers

---
 writer/standard/shapes/blocks.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/writer/standard/shapes/blocks.go b/writer/standard/shapes/blocks.go
index c5daf3e..4fd5446 100644
--- a/writer/standard/shapes/blocks.go
+++ b/writer/standard/shapes/blocks.go
@@ -123,7 +123,7 @@ func LiquidBlock() func(ctx *standard.DrawContext) {
 // by the stripeRatio parameter, which should be in the range [0.6, 1.0].
 // If the given ratio is out of bounds, a default of 0.85 is used.
 func HStripeBlock(stripeRatio float64) func(ctx *standard.DrawContext) {
-	if stripeRatio < 0.6 || stripeRatio > 1 {
+	if !(stripeRatio >= 0.6 && stripeRatio <= 1) {
 		stripeRatio = 0.85
 	}
 	return func(ctx *standard.DrawContext) {
@@ -160,7 +160,7 @@ func HStripeBlock(stripeRatio float64) func(ctx *standard.DrawContext) {
 // by the stripeRatio parameter, which should be in the range [0.6, 1.0].
 // If the given ratio is out of bounds, a default of 0.85 is used.
 func VStripeBlock(stripeRatio float64) func(ctx *standard.DrawContext) {
-	if stripeRatio < 0.6 || stripeRatio > 1 {
+	if !(stripeRatio >= 0.6 && stripeRatio <= 1) {
 		stripeRatio = 0.85
 	}
 	return func(ctx *standard.DrawContext) {
@@ -311,7 +311,7 @@ func HChainBlock() func(ctx *standard.DrawContext) {
 // The size parameter defines the square's size relative to the available cell,
 // ranging from 0.1 (10%) to 1.0 (100%). Values outside this range default to 1.0.
 func SquareBlocks(size float64) func(ctx *standard.DrawContext) {
-	if size < 0.1 || size > 1.0 {
+	if !(size >= 0.1 && size <= 1.0) {
 		size = 1
 	}
 	return func(ctx *standard.DrawContext) {
@@ -331,7 +331,7 @@ func SquareBlocks(size float64) func(ctx *standard.DrawContext) {
 }
 
 func CircleBlocks(size float64) func(ctx *standard.DrawContext) {
-	if size < 0.1 || size > 1.0 {
+	if !(size >= 0.1 && size <= 1.0) {
 		size = 1
 	}
 	return func(ctx *standard.DrawContext) {
-- 
2.43.0


From aab5c81a145b185dab9344cadf9c062c7193d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 18/25] fix: reject hex colours whose last digit is not one

---
 writer/standard/image_option.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index accca10..497254c 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -5,7 +5,6 @@ import (
 	"image"
 	"image/color"
 	"strings"
-	"unicode"
 
 	"github.com/yeqown/go-qrcode/v2"
 )
@@ -180,9 +179,9 @@ func parseFromHex(s string) color.RGBA {
 	default:
 		err = fmt.Errorf("invalid length, must be 7 or 4")
 	}
-	// Sscanf skips blanks
-	if err == nil && strings.IndexFunc(s, unicode.IsSpace) >= 0 {
-		err = fmt.Errorf("invalid color %q, must not contain blanks", s)
+	// Sscanf skips blanks and does not look at what follows the last digit.
+	if err == nil && strings.Trim(s[1:], "0123456789abcdefABCDEF") != "" {
+		err = fmt.Errorf("invalid color %q, must be hex digits", s)
 	}
 	if err != nil {
 		panic(err)
-- 
2.43.0


From b6c54ee04b641570f8d96093995bd94e1d645313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 19/25] fix: truncate an existing file before writing the
 compressed image

---
 writer/compressed/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/compressed/writer.go b/writer/compressed/writer.go
index 19bc71e..9166d40 100644
--- a/writer/compressed/writer.go
+++ b/writer/compressed/writer.go
@@ -30,7 +30,7 @@ var (
 )
 
 func New(filename string, opt *Option) (qrcode.Writer, error) {
-	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0644)
+	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2f10bce42f7f58a5e0bc437a91fcf6d860d6cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 20/25] fix: exit with a non-zero status when the command fails

The qrcode command printed the error and exited with status 0, so scripts
could not tell that no code was written.
---
 cmd/qrcode/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/qrcode/main.go b/cmd/qrcode/main.go
index 6810334..f971300 100644
--- a/cmd/qrcode/main.go
+++ b/cmd/qrcode/main.go
@@ -9,5 +9,6 @@ func main() {
 
 	if err := app.Run(os.Args); err != nil {
 		println(err.Error())
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 3f5e98765a72f3dddbad03f5d720715edbbed5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 21/25] fix: reject block sizes that do not fit into 8 bits

-s 256 was silently taken as 0, which stands for the default of 20, and
-s 261 as 5.
---
 cmd/qrcode/app.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/qrcode/app.go b/cmd/qrcode/app.go
index a3dbc9e..e56996c 100644
--- a/cmd/qrcode/app.go
+++ b/cmd/qrcode/app.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"math"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -149,6 +150,11 @@ func parseGenerateContextFrom(c *cli.Context) *generateContext {
 		genCtx.mode = writerMode_TERMINAL
 	}
 
+	// the block size has to fit into the type it is passed on as
+	if v := c.Uint("block"); v > math.MaxUint8 {
+		panic("invalid block size, want: uint8")
+	}
+
 	// parse borders
 	borders := c.String("borders")
 	arr := strings.Split(borders, ",")
-- 
2.43.0


From c206b535b681cc2a910ce397f988065911a8eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 22/25] fix: answer wasm calls with missing or wrong options
 instead of crashing

A partial option object, an option of a wrong type or an invalid color ended
the wasm program, numbers that do not fit into 8 bits were cut off, and a text
that is not a string was encoded as its description.
---
 cmd/wasm/main.go  | 26 +++++++++-----
 cmd/wasm/types.go | 91 ++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 95 insertions(+), 22 deletions(-)

diff --git a/cmd/wasm/main.go b/cmd/wasm/main.go
index 4f5c67e..80274c1 100644
--- a/cmd/wasm/main.go
+++ b/cmd/wasm/main.go
@@ -41,20 +41,28 @@ func genqrcode(_ js.Value, args []js.Value) (v interface{}) {
 	)
 
 	defer func() {
+		// a panic would end the whole program, and no later call could be answered.
+		if e := recover(); e != nil {
+			r.setError(errors.Errorf("genqrcode: %v", e))
+		}
 		v = r.JSValue()
 	}()
 
-	switch len(args) {
-	case 0:
+	if len(args) == 0 {
 		r.setError(errors.New("no args"))
 		return
-	case 1:
-		srcContent = args[0].String()
-	case 2:
-		fallthrough
-	default:
-		srcContent = args[0].String()
-		opt = optionFromJSValue(args[1])
+	}
+	if args[0].Type() != js.TypeString {
+		r.setError(errors.New("content must be a string"))
+		return
+	}
+	srcContent = args[0].String()
+	if len(args) > 1 {
+		var err error
+		if opt, err = optionFromJSValue(args[1]); err != nil {
+			r.setError(errors.Wrap(err, "invalid option"))
+			return
+		}
 	}
 
 	//if err := opt.validate(); err != nil {
diff --git a/cmd/wasm/types.go b/cmd/wasm/types.go
index 7c9783a..b0657d8 100644
--- a/cmd/wasm/types.go
+++ b/cmd/wasm/types.go
@@ -5,7 +5,9 @@ package main
 import (
 	"bytes"
 	"encoding/base64"
+	"fmt"
 	"io"
+	"math"
 	"syscall/js"
 
 	"github.com/yeqown/go-qrcode/v2"
@@ -37,29 +39,92 @@ type genOption struct {
 }
 
 // optionFromJSValue converts js.Value to genOption.
-func optionFromJSValue(option js.Value) *genOption {
+func optionFromJSValue(option js.Value) (*genOption, error) {
 	//fmt.Println(option.Type().String())
 	if option.IsNull() || option.IsUndefined() || option.Type().String() != "object" {
 		// option must be an object, otherwise return default empty option.
-		return nil
+		return nil, nil
 	}
 
-	return &genOption{
+	r := optionReader{object: option}
+	opt := &genOption{
 		encodeOption: encodeOption{
-			version: option.Get("encodeVersion").Int(),
-			mode:    uint8(option.Get("encodeMode").Int()),
-			ecLevel: option.Get("encodeECLevel").String(),
+			version: r.integer("encodeVersion", 0, 40),
+			mode:    uint8(r.integer("encodeMode", 0, math.MaxUint8)),
+			ecLevel: r.str("encodeECLevel"),
 		},
 		outputOption: outputOption{
-			bgColor:       option.Get("outputBgColor").String(),
-			bgTransparent: option.Get("outputBgTransparent").Bool(),
-			qrColor:       option.Get("outputQrColor").String(),
-			qrWidth:       uint8(option.Get("outputQrWidth").Int()),
-			circleShape:   option.Get("outputCircleShape").Bool(),
-			imageEncoder:  option.Get("outputImageEncoder").String(),
-			margin:        option.Get("outputMargin").Int(),
+			bgColor:       r.str("outputBgColor"),
+			bgTransparent: r.boolean("outputBgTransparent"),
+			qrColor:       r.str("outputQrColor"),
+			qrWidth:       uint8(r.integer("outputQrWidth", 0, math.MaxUint8)),
+			circleShape:   r.boolean("outputCircleShape"),
+			imageEncoder:  r.str("outputImageEncoder"),
+			margin:        r.integer("outputMargin", 0, math.MaxInt32),
 		},
 	}
+	if r.err != nil {
+		return nil, r.err
+	}
+
+	return opt, nil
+}
+
+// optionReader reads the properties of a js object, keeping the first error.
+// Properties which are undefined or null are treated as the zero value.
+type optionReader struct {
+	object js.Value
+	err    error
+}
+
+// get returns the property if it is set, and whether it has the wanted type.
+func (r *optionReader) get(name string, want js.Type) (js.Value, bool) {
+	v := r.object.Get(name)
+	if v.IsUndefined() || v.IsNull() {
+		return v, false
+	}
+	if v.Type() != want {
+		r.setError(fmt.Errorf("%s must be a %s", name, want))
+		return v, false
+	}
+
+	return v, true
+}
+
+func (r *optionReader) setError(err error) {
+	if r.err == nil {
+		r.err = err
+	}
+}
+
+func (r *optionReader) str(name string) string {
+	v, ok := r.get(name, js.TypeString)
+	if !ok {
+		return ""
+	}
+
+	return v.String()
+}
+
+func (r *optionReader) boolean(name string) bool {
+	v, ok := r.get(name, js.TypeBoolean)
+
+	return ok && v.Bool()
+}
+
+func (r *optionReader) integer(name string, min, max int) int {
+	v, ok := r.get(name, js.TypeNumber)
+	if !ok {
+		return 0
+	}
+
+	f := v.Float()
+	if f != math.Trunc(f) || f < float64(min) || f > float64(max) {
+		r.setError(fmt.Errorf("%s must be an integer from %d to %d", name, min, max))
+		return 0
+	}
+
+	return int(f)
 }
 
 // validate genOption.
-- 
2.43.0


From 1a298bead8adfebb8d23c28a7359ee99cb6411fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 23/25] fix: refuse images which exhaust the memory of the wasm
 program

A single image with wide blocks or margins needs more than the 4 GB a wasm
program can have, and so do several smaller ones in a row.
---
 cmd/wasm/main.go  |  9 +++++++++
 cmd/wasm/types.go | 20 +++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/cmd/wasm/main.go b/cmd/wasm/main.go
index 80274c1..3ee43c5 100644
--- a/cmd/wasm/main.go
+++ b/cmd/wasm/main.go
@@ -5,6 +5,7 @@ package main
 import (
 	"bytes"
 	"fmt"
+	"runtime"
 	"syscall/js"
 
 	"github.com/pkg/errors"
@@ -76,6 +77,14 @@ func genqrcode(_ js.Value, args []js.Value) (v interface{}) {
 		return
 	}
 
+	if side := opt.imageSide(qrc.Dimension()); side > maxImageSide {
+		r.setError(errors.Errorf("image of %d pixels is too large, at most %d are possible", side, maxImageSide))
+		return
+	} else if side > maxImageSide/4 {
+		// free the images of previous calls before the memory grows for this one.
+		runtime.GC()
+	}
+
 	buf := bytes.NewBuffer(nil)
 	wr := nopCloser{Writer: buf}
 	w := stdw.NewWithWriter(wr, opt.outputOptions()...)
diff --git a/cmd/wasm/types.go b/cmd/wasm/types.go
index b0657d8..6184057 100644
--- a/cmd/wasm/types.go
+++ b/cmd/wasm/types.go
@@ -14,6 +14,10 @@ import (
 	stdw "github.com/yeqown/go-qrcode/writer/standard"
 )
 
+// maxImageSide is the largest width and height of an image. Larger ones may
+// exhaust the memory of a wasm program, which ends it.
+const maxImageSide = 8192
+
 // encodeOption refers to github.com/yeqown/go-qrcode/v2.encodingOption
 type encodeOption struct {
 	version int    // encodeVersion
@@ -60,7 +64,7 @@ func optionFromJSValue(option js.Value) (*genOption, error) {
 			qrWidth:       uint8(r.integer("outputQrWidth", 0, math.MaxUint8)),
 			circleShape:   r.boolean("outputCircleShape"),
 			imageEncoder:  r.str("outputImageEncoder"),
-			margin:        r.integer("outputMargin", 0, math.MaxInt32),
+			margin:        r.integer("outputMargin", 0, maxImageSide),
 		},
 	}
 	if r.err != nil {
@@ -211,6 +215,20 @@ func (o *genOption) outputOptions() []stdw.ImageOption {
 	return out
 }
 
+// imageSide returns the width and height of the image of a symbol with the
+// given number of modules per side.
+func (o *genOption) imageSide(dimension int) int {
+	width, margin := 20, 40 // defaults of writer/standard
+	if o != nil && o.outputOption.qrWidth != 0 {
+		width = int(o.outputOption.qrWidth)
+	}
+	if o != nil && o.outputOption.margin != 0 {
+		margin = o.outputOption.margin
+	}
+
+	return dimension*width + 2*margin
+}
+
 // genResult is result contains generated code image or error message.
 type genResult struct {
 	Success            bool   `json:"success"`
-- 
2.43.0


From 7b73b7567a74f3ee9642ca9f8c4766ae11d4bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 24/25] fix: keep halftone cells of light blocks out of the
 logo's safe zone

---
 writer/standard/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 5082e24..051cd90 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -176,7 +176,8 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 		// This preserves logo visibility by preventing block rendering underneath it.
 		if logoValid && opt.logoSafeZone &&
 			blockOverlapsLogo(x, y, opt.qrBlockWidth(), left, top, w, h, logoWidth, logoHeight) {
-			if v.IsSet() {
+			// a light block has dark cells in a halftone picture
+			if v.IsSet() || halftoneImg != nil {
 				return
 			}
 		}
-- 
2.43.0


From 2c3c811e0297adff5002f57d7d76bf2969e4f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:24 +0000
Subject: [PATCH 25/25] fix: blend edges over a transparent background with its
 real colour

backgroundColor returned a colour that is not valid pre-multiplied alpha
({255,255,255,0}), so antialiased edges of shapes and translucent logos
got wrong colours over a transparent background. JPEG keeps painting the
background colour, which transparency does not affect.
---
 writer/standard/image_option.go | 6 +++---
 writer/standard/writer.go       | 7 +++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index 497254c..5c906b5 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -73,12 +73,12 @@ func (oo *outputImageOptions) backgroundColor() color.RGBA {
 		return color_WHITE
 	}
 
-	bg := oo.bgColor
 	if oo.bgTransparent {
-		bg.A = 0x00
+		// color.RGBA is pre-multiplied by alpha, so RGB must be 0 when fully transparent.
+		return color.RGBA{}
 	}
 
-	return bg
+	return oo.bgColor
 }
 
 func (oo *outputImageOptions) logoImage() image.Image {
diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 051cd90..83c4f94 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -94,6 +94,13 @@ func drawTo(w io.Writer, mat qrcode.Matrix, option *outputImageOptions) (err err
 		return ErrNilWriter
 	}
 
+	if _, ok := option.imageEncoder.(jpegEncoder); ok && option.bgTransparent {
+		// JPEG images can't be transparent, paint the background color.
+		opaque := *option
+		opaque.bgTransparent = false
+		option = &opaque
+	}
+
 	img := draw(mat, option)
 
 	// DONE(@yeqown): support file format specified config option
-- 
2.43.0

