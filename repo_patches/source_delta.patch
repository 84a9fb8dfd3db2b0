From f80c31cbb31c5378328648005cc53c5b5ebdc1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 01/22] fix: accept named string and byte-slice types instead
 of panicking

New and NewWith are declared for ~string | ~[]byte, but a type switch on the
dynamic type only matched string and []byte themselves.
---
 qrcode.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/qrcode.go b/qrcode.go
index 0852331..d7e8bd6 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -28,14 +28,7 @@ func NewWith[T ~string | ~[]byte](text T, opts ...EncodeOption) (*QRCode, error)
 }
 
 func toBytes[T ~string | ~[]byte](v T) []byte {
-	switch x := any(v).(type) {
-	case string:
-		return []byte(x)
-	case []byte:
-		return x
-	default:
-		panic("unreachable")
-	}
+	return []byte(v)
 }
 
 // validateEncodingMode checks if the specified encoding mode is compatible with the input text.
-- 
2.43.0


From 3b85bb63a8ab49e6733cc6d7b5ed748c8d5db1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 02/22] fix: do not pick kanji mode for text with a numeric or
 alphanumeric prefix

Auto detection moved on to kanji mode without looking at the characters it had
already accepted, so "123\u6f22" was encoded in kanji mode and its data was lost.
---
 chardet.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chardet.go b/chardet.go
index 8035b9f..60e590e 100644
--- a/chardet.go
+++ b/chardet.go
@@ -75,6 +75,12 @@ func analyzeEncodeModeFromRaw(raw string) (encMode, error) {
 		goto reAnalyze
 	}
 
+	// Kanji does not include the characters of the previous modes, so that a prefix
+	// accepted by numeric or alphanumeric mode could not be encoded in Kanji mode.
+	if mode == EncModeKanji && validateEncodingMode(mode, raw) != nil {
+		mode = EncModeByte
+	}
+
 	if mode > EncModeByte {
 		// If the mode overflow the EncModeKanji, means we can't encode the input data.
 		return EncModeNone, ErrNotSupportCharacter
-- 
2.43.0


From ae29818755be737c542ab891ee56f61d4acbac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 03/22] fix: return an error for an unsupported encoding mode

With an explicit version the unknown mode reached newEncoder(), which panics.
---
 qrcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index d7e8bd6..0e40f7a 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -47,7 +47,7 @@ func validateEncodingMode(mode encMode, text string) error {
 		// Byte mode can encode any character
 		return nil
 	default:
-		return nil
+		return fmt.Errorf("unsupported encoding mode: %s", getEncModeName(mode))
 	}
 
 	for _, r := range text {
-- 
2.43.0


From 04f904697d927b242206ed3b7436493525fb6c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 04/22] fix: settle mask score ties by mask index, not by
 goroutine order

Two masks with the same lowest score were chosen between by whichever goroutine
reported first, so one text could give different symbols from run to run.
---
 qrcode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index 0e40f7a..9289646 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -700,7 +700,8 @@ func (q *QRCode) masking() {
 	close(scoreChan)
 
 	for c := range scoreChan {
-		if c.Score < lowScore {
+		// scores arrive in any order, so a tie must not be settled by arrival.
+		if c.Score < lowScore || (c.Score == lowScore && c.Idx < markMatsIdx) {
 			lowScore = c.Score
 			markMatsIdx = c.Idx
 		}
-- 
2.43.0


From fc7f818730d83db168ccd3b5a6c37c548d6e4da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 05/22] fix: score masks by module colour, not by module type

Rules 2 and 3 compared typed values, so a 2x2 block or finder-like pattern made
of modules of different types was not counted and a worse mask could be chosen.
---
 mask_evaluation.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index 2c75a6b..a91f556 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -80,7 +80,7 @@ func rule2(mat *Matrix) int {
 			s2, _ = mat.at(x, y+1)
 			s3, _ = mat.at(x+1, y+1)
 
-			if s0 == s1 && s2 == s3 && s1 == s2 {
+			if samestate(s0, s1) && samestate(s2, s3) && samestate(s1, s2) {
 				score += 3
 			}
 		}
@@ -113,8 +113,9 @@ func rule3(mat *Matrix) (score int) {
 	dimension := mat.Width()
 
 	for i := 0; i < dimension; i++ {
-		col := mat.Col(i)
-		row := mat.Row(i)
+		// patterns are about dark and light modules, whatever their type is.
+		col := toBinaryLine(mat.Col(i))
+		row := toBinaryLine(mat.Row(i))
 
 		// DONE(@yeqown): statePattern1 and statePattern2 are fixed, so maybe kmpGetNext
 		// could cache result to speed up.
@@ -127,6 +128,20 @@ func rule3(mat *Matrix) (score int) {
 	return score
 }
 
+// toBinaryLine copies a line of the matrix and keeps only whether each module is
+// dark or light, so that it can be compared with binaryToQRValueSlice patterns.
+func toBinaryLine(line []qrvalue) []qrvalue {
+	out := make([]qrvalue, len(line))
+	for i, v := range line {
+		out[i] = QRValue_DATA_V0
+		if v.qrbool() {
+			out[i] = QRValue_DATA_V1
+		}
+	}
+
+	return out
+}
+
 // rule4 is based on the ratio of light modules to dark modules:
 //
 // 1. Count the total number of modules in the matrix.
-- 
2.43.0


From 01ef4037632518571575a7f84880c12fa2357920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 06/22] fix: do not treat 55.x percent dark modules as exactly
 55

The percentage is truncated before it is compared with the multiples of five,
which gave a mask with 55.x% (or 45.x%) dark modules the wrong rule 4 penalty.
---
 mask_evaluation.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index a91f556..87bcc0d 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -175,7 +175,9 @@ func rule4(mat *Matrix) int {
 
 	ratio := (dark * 100) / total // in range [0, 100]
 	step := 0
-	if ratio%5 == 0 {
+	// only a percentage which is exactly a multiple of five is its own next multiple,
+	// ratio has lost its fraction.
+	if ratio%5 == 0 && (dark*100)%total == 0 {
 		step = 1
 	}
 
-- 
2.43.0


From 3663f3a939af37a86387af524af55fd73bf6d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 07/22] fix: truncate an existing file in compressed.New

Writing a smaller image over a larger file left the tail of the old one behind.
---
 writer/compressed/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/compressed/writer.go b/writer/compressed/writer.go
index 19bc71e..9166d40 100644
--- a/writer/compressed/writer.go
+++ b/writer/compressed/writer.go
@@ -30,7 +30,7 @@ var (
 )
 
 func New(filename string, opt *Option) (qrcode.Writer, error) {
-	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0644)
+	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From fbf118737609fa7b0e6a5bfcc2828bb6687d9018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 08/22] fix: clear the logo safe zone at [y][x] in the
 neighbours bitmap

The bitmap is indexed by row first; with a logo or borders which are not
symmetric the wrong modules were reported as missing to custom shapes.
---
 writer/standard/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 65d6bc4..e2c6b4f 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -160,7 +160,7 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	if logoValid && opt.logoSafeZone {
 		mat.Iterate(qrcode.IterDirection_ROW, func(x int, y int, v qrcode.QRValue) {
 			if blockOverlapsLogo(x, y, opt.qrBlockWidth(), left, top, w, h, logoWidth, logoHeight) {
-				bitMap[x][y] = false
+				bitMap[y][x] = false
 			}
 		})
 	}
-- 
2.43.0


From 30f4b2d36526345274aecce4af17d461a41ab56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 09/22] fix: centre a logo whose bounds do not start at (0, 0)

A sub-image was shifted by its origin, off the centre and out of its safe zone.
---
 writer/standard/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index e2c6b4f..5ef2c6f 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -235,7 +235,8 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 
 	// DONE(@yeqown): calculate the xOffset and yOffset which point(xOffset, yOffset)
 	// should icon upper-left to start
-	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2, (h-logoHeight)/2)
+	// The logo is drawn at its own origin, which is not (0, 0) for a sub-image.
+	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2-opt.logo.Bounds().Min.X, (h-logoHeight)/2-opt.logo.Bounds().Min.Y)
 
 done:
 	return dc.Image()
-- 
2.43.0


From d88ce8a7d4ef442197d14dd147b029cfb617be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 10/22] fix: use the stripeRatio parameter in HStripeBlock

It was checked and then ignored: stripes were always 0.9 wide.
---
 writer/standard/shapes/blocks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/shapes/blocks.go b/writer/standard/shapes/blocks.go
index 31322f8..c5daf3e 100644
--- a/writer/standard/shapes/blocks.go
+++ b/writer/standard/shapes/blocks.go
@@ -131,7 +131,7 @@ func HStripeBlock(stripeRatio float64) func(ctx *standard.DrawContext) {
 		fw, fh := float64(w), float64(h)
 		x, y := ctx.UpperLeft()
 		cx, cy := x+fw/2, y+fh/2
-		r := fw * 0.9 / 2
+		r := fw * stripeRatio / 2
 
 		ctx.SetColor(ctx.Color())
 
-- 
2.43.0


From 6a1e39c793e8320ff240c4aa9108e7174f69e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 11/22] fix: walk the image's own bounds in Gray and
 Binaryzation

Images whose bounds do not start at (0, 0) were read and written off by their
origin, which left part of the result black.
---
 writer/standard/imgkit/process.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/writer/standard/imgkit/process.go b/writer/standard/imgkit/process.go
index 5cbfd87..3ed6f7e 100644
--- a/writer/standard/imgkit/process.go
+++ b/writer/standard/imgkit/process.go
@@ -15,10 +15,9 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 
 	gray := Gray(src)
 	bounds := src.Bounds()
-	height, width := bounds.Max.Y-bounds.Min.Y, bounds.Max.X-bounds.Min.X
 
-	for i := 0; i < height; i++ {
-		for j := 0; j < width; j++ {
+	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
+		for j := bounds.Min.X; j < bounds.Max.X; j++ {
 			// var rgb int = int(gray[i][j][0]) + int(gray[i][j][1]) + int(gray[i][j][2])
 			if gray.At(j, i).(color.Gray).Y > threshold {
 				gray.Set(j, i, color.White)
@@ -33,11 +32,10 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 
 func Gray(src image.Image) *image.Gray {
 	bounds := src.Bounds()
-	height, width := bounds.Max.Y-bounds.Min.Y, bounds.Max.X-bounds.Min.X
 	gray := image.NewGray(bounds)
 
-	for i := 0; i < height; i++ {
-		for j := 0; j < width; j++ {
+	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
+		for j := bounds.Min.X; j < bounds.Max.X; j++ {
 			c := color.GrayModel.Convert(src.At(j, i))
 			gray.SetGray(j, i, c.(color.Gray))
 		}
-- 
2.43.0


From 2fcc10218e8bf67a370b8c9a3fb9bd639b881a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 12/22] fix: do not change the options while drawing a
 transparent background

Drawing rewrote the background colour kept in the writer's options: a second
Write drew another image and concurrent Writes raced.
---
 writer/standard/image_option.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index 9efd4d2..0c04804 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -72,11 +72,12 @@ func (oo *outputImageOptions) backgroundColor() color.RGBA {
 		return color_WHITE
 	}
 
+	bg := oo.bgColor
 	if oo.bgTransparent {
-		(&oo.bgColor).A = 0x00
+		bg.A = 0x00
 	}
 
-	return oo.bgColor
+	return bg
 }
 
 func (oo *outputImageOptions) logoImage() image.Image {
@@ -148,11 +149,8 @@ func (oo *outputImageOptions) translateToRGBA(v qrcode.QRValue) (rgba color.RGBA
 	}
 
 	if oo.bgTransparent {
-		(&oo.bgColor).A = 0x00
-		// color.RGBA is pre-multiplied by alpha, so set RGB to 0 when fully transparent.
-		(&oo.bgColor).R = 0x00
-		(&oo.bgColor).G = 0x00
-		(&oo.bgColor).B = 0x00
+		// color.RGBA is pre-multiplied by alpha, so RGB is 0 when fully transparent.
+		return color.RGBA{}
 	}
 	rgba = oo.bgColor
 
-- 
2.43.0


From c9557ace7f0e6d5ff23b1333614d1dc735d148c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 13/22] fix: exit with status 1 when the qrcode command fails

The error was printed but the exit status said success.
---
 cmd/qrcode/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/qrcode/main.go b/cmd/qrcode/main.go
index 6810334..f971300 100644
--- a/cmd/qrcode/main.go
+++ b/cmd/qrcode/main.go
@@ -9,5 +9,6 @@ func main() {
 
 	if err := app.Run(os.Args); err != nil {
 		println(err.Error())
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 7ec12038d36093fb8eac0cb1744d5951a9957bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 14/22] fix: report bad options of generateQRCode instead of
 killing the wasm instance

An option object without all ten fields, or with an invalid color, made the Go
side panic; every later call then failed with "Go program has already exited".
---
 cmd/wasm/main.go  |  4 ++++
 cmd/wasm/types.go | 43 +++++++++++++++++++++++++++++++++----------
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/cmd/wasm/main.go b/cmd/wasm/main.go
index 4f5c67e..9d190cc 100644
--- a/cmd/wasm/main.go
+++ b/cmd/wasm/main.go
@@ -41,6 +41,10 @@ func genqrcode(_ js.Value, args []js.Value) (v interface{}) {
 	)
 
 	defer func() {
+		// a panic, such as an invalid color string, would end the whole wasm instance.
+		if e := recover(); e != nil {
+			r.setError(fmt.Errorf("genqrcode panicked: %v", e))
+		}
 		v = r.JSValue()
 	}()
 
diff --git a/cmd/wasm/types.go b/cmd/wasm/types.go
index 7c9783a..d021cd4 100644
--- a/cmd/wasm/types.go
+++ b/cmd/wasm/types.go
@@ -46,22 +46,45 @@ func optionFromJSValue(option js.Value) *genOption {
 
 	return &genOption{
 		encodeOption: encodeOption{
-			version: option.Get("encodeVersion").Int(),
-			mode:    uint8(option.Get("encodeMode").Int()),
-			ecLevel: option.Get("encodeECLevel").String(),
+			version: intField(option, "encodeVersion"),
+			mode:    uint8(intField(option, "encodeMode")),
+			ecLevel: stringField(option, "encodeECLevel"),
 		},
 		outputOption: outputOption{
-			bgColor:       option.Get("outputBgColor").String(),
-			bgTransparent: option.Get("outputBgTransparent").Bool(),
-			qrColor:       option.Get("outputQrColor").String(),
-			qrWidth:       uint8(option.Get("outputQrWidth").Int()),
-			circleShape:   option.Get("outputCircleShape").Bool(),
-			imageEncoder:  option.Get("outputImageEncoder").String(),
-			margin:        option.Get("outputMargin").Int(),
+			bgColor:       stringField(option, "outputBgColor"),
+			bgTransparent: boolField(option, "outputBgTransparent"),
+			qrColor:       stringField(option, "outputQrColor"),
+			qrWidth:       uint8(intField(option, "outputQrWidth")),
+			circleShape:   boolField(option, "outputCircleShape"),
+			imageEncoder:  stringField(option, "outputImageEncoder"),
+			margin:        intField(option, "outputMargin"),
 		},
 	}
 }
 
+// intField, stringField and boolField read a field of the option object. A missing
+// field, or one of another type, counts as not set: js.Value would panic on it.
+func intField(option js.Value, name string) int {
+	if v := option.Get(name); v.Type() == js.TypeNumber {
+		return v.Int()
+	}
+	return 0
+}
+
+func stringField(option js.Value, name string) string {
+	if v := option.Get(name); v.Type() == js.TypeString {
+		return v.String()
+	}
+	return ""
+}
+
+func boolField(option js.Value, name string) bool {
+	if v := option.Get(name); v.Type() == js.TypeBoolean {
+		return v.Bool()
+	}
+	return false
+}
+
 // validate genOption.
 func (o *genOption) validate() error {
 	if o == nil {
-- 
2.43.0


From 07ffee5df5c6c4aa5fe60e67e37f0c834ce9861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 15/22] verif hook: let a monitor reorder the masking
 goroutines (tag verif)

---
 hook_off.go |  6 ++++++
 hook_on.go  | 14 ++++++++++++++
 qrcode.go   |  1 +
 3 files changed, 21 insertions(+)
 create mode 100644 hook_off.go
 create mode 100644 hook_on.go

diff --git a/hook_off.go b/hook_off.go
new file mode 100644
index 0000000..67ee6d7
--- /dev/null
+++ b/hook_off.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package qrcode
+
+// hookMaskScored is a no-op unless built with the verif tag, see hook_on.go.
+func hookMaskScored(int) {}
diff --git a/hook_on.go b/hook_on.go
new file mode 100644
index 0000000..1a55cf4
--- /dev/null
+++ b/hook_on.go
@@ -0,0 +1,14 @@
+//go:build verif
+
+package qrcode
+
+// VerifMaskScored, if set, is called by each masking goroutine with its mask index
+// after the mask is scored and before the score is reported. It only exists in
+// builds with the verif tag and lets a monitor reorder the goroutines.
+var VerifMaskScored func(idx int)
+
+func hookMaskScored(idx int) {
+	if f := VerifMaskScored; f != nil {
+		f(idx)
+	}
+}
diff --git a/qrcode.go b/qrcode.go
index 9289646..424285b 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -685,6 +685,7 @@ func (q *QRCode) masking() {
 				score,
 				markMatsIdx,
 				lowScore)
+			hookMaskScored(i)
 			scoreChan <- maskScore{
 				Score: score,
 				Idx:   i,
-- 
2.43.0


From 6c4d4e046d3716739586653533dd0c3fa687c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 16/22] fix: return a copy of the column from Matrix.Col

---
 matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matrix.go b/matrix.go
index 81d0a9a..0f1c4e4 100644
--- a/matrix.go
+++ b/matrix.go
@@ -162,7 +162,9 @@ func (m *Matrix) Col(cur int) []qrvalue {
 		return nil
 	}
 
-	return m.mat[cur]
+	col := make([]qrvalue, m.height)
+	copy(col, m.mat[cur])
+	return col
 }
 
 // Bitmap outputs the QR Code as a matrix of pixels, each represented by a single bit.
-- 
2.43.0


From 6a7f0f9b7451afff302f10f8dab052c9ab6932de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 17/22] fix: keep the background when the gradient's symbol has
 its color

The gradient recolors every pixel of the foreground color, so with equal
foreground and background colors it painted the whole image.
---
 writer/standard/writer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 5ef2c6f..d9ee6b4 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -111,6 +111,15 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	// closer as image width, h as image height
 	w := mat.Width()*opt.qrBlockWidth() + left + right
 	h := mat.Height()*opt.qrBlockWidth() + top + bottom
+
+	// The gradient recolors the pixels of the foreground color, so that color
+	// must differ from the background's while the blocks are drawn.
+	if opt.qrGradient != nil && opt.qrColor == opt.backgroundColor() {
+		distinct := *opt
+		distinct.qrColor.B ^= 1
+		opt = &distinct
+	}
+
 	dc := gg.NewContext(w, h)
 
 	// draw background
-- 
2.43.0


From 002629fb4f5474600690ac76c4c049f32be74f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 18/22] fix: refuse a block size that does not fit instead of
 using another one

---
 cmd/qrcode/app.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/qrcode/app.go b/cmd/qrcode/app.go
index a3dbc9e..f9c94dc 100644
--- a/cmd/qrcode/app.go
+++ b/cmd/qrcode/app.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"math"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -149,6 +150,10 @@ func parseGenerateContextFrom(c *cli.Context) *generateContext {
 		genCtx.mode = writerMode_TERMINAL
 	}
 
+	if c.Uint("block") > math.MaxUint8 {
+		panic("invalid block size, want: uint8")
+	}
+
 	// parse borders
 	borders := c.String("borders")
 	arr := strings.Split(borders, ",")
-- 
2.43.0


From 61c84c426b19b20d17711c08d9891fec68f840d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 19/22] fix: report wasm numbers out of range instead of
 wrapping them around

---
 cmd/wasm/types.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cmd/wasm/types.go b/cmd/wasm/types.go
index d021cd4..cbda6e8 100644
--- a/cmd/wasm/types.go
+++ b/cmd/wasm/types.go
@@ -5,7 +5,9 @@ package main
 import (
 	"bytes"
 	"encoding/base64"
+	"fmt"
 	"io"
+	"math"
 	"syscall/js"
 
 	"github.com/yeqown/go-qrcode/v2"
@@ -47,14 +49,14 @@ func optionFromJSValue(option js.Value) *genOption {
 	return &genOption{
 		encodeOption: encodeOption{
 			version: intField(option, "encodeVersion"),
-			mode:    uint8(intField(option, "encodeMode")),
+			mode:    uint8Field(option, "encodeMode"),
 			ecLevel: stringField(option, "encodeECLevel"),
 		},
 		outputOption: outputOption{
 			bgColor:       stringField(option, "outputBgColor"),
 			bgTransparent: boolField(option, "outputBgTransparent"),
 			qrColor:       stringField(option, "outputQrColor"),
-			qrWidth:       uint8(intField(option, "outputQrWidth")),
+			qrWidth:       uint8Field(option, "outputQrWidth"),
 			circleShape:   boolField(option, "outputCircleShape"),
 			imageEncoder:  stringField(option, "outputImageEncoder"),
 			margin:        intField(option, "outputMargin"),
@@ -71,6 +73,15 @@ func intField(option js.Value, name string) int {
 	return 0
 }
 
+// uint8Field panics if the number does not fit, rather than use another one.
+func uint8Field(option js.Value, name string) uint8 {
+	n := intField(option, name)
+	if n < 0 || n > math.MaxUint8 {
+		panic(fmt.Sprintf("%s is out of range 0 to 255: %d", name, n))
+	}
+	return uint8(n)
+}
+
 func stringField(option js.Value, name string) string {
 	if v := option.Get(name); v.Type() == js.TypeString {
 		return v.String()
-- 
2.43.0


From 8d603478cb1913d547709de8205cd14419933623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 20/22] fix: leave the caller's gradient stops in their order

---
 writer/standard/gradient.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer/standard/gradient.go b/writer/standard/gradient.go
index 52283f4..f5b4e3a 100644
--- a/writer/standard/gradient.go
+++ b/writer/standard/gradient.go
@@ -27,6 +27,8 @@ type LinearGradient struct {
 // NewGradient creates a new LinearGradient with the specified angle (in degrees) and color stops.
 // The stops are sorted in ascending order of T.
 func NewGradient(angle float64, stops ...ColorStop) *LinearGradient {
+	// sort a copy, the slice may be the caller's.
+	stops = append([]ColorStop(nil), stops...)
 	sort.Slice(stops, func(i, j int) bool {
 		return stops[i].T < stops[j].T
 	})
-- 
2.43.0


From f271353cb78de058231dc17ad4ed0d962e2a57dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 21/22] fix: compose a background with alpha only once

---
 writer/standard/image_option.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index 0c04804..7dd5df1 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -148,7 +148,9 @@ func (oo *outputImageOptions) translateToRGBA(v qrcode.QRValue) (rgba color.RGBA
 		return rgba
 	}
 
-	if oo.bgTransparent {
+	// The background is painted before the blocks: a background that is not opaque
+	// must not be composed over itself once more.
+	if oo.bgTransparent || oo.bgColor.A != 0xff {
 		// color.RGBA is pre-multiplied by alpha, so RGB is 0 when fully transparent.
 		return color.RGBA{}
 	}
-- 
2.43.0


From a0b10d5f1755ad8598776dea4ba76141fbe41b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 22/22] fix: keep alpha right under a gradient

Drawing the recolored image over itself doubled a partly transparent
background, and a partly transparent foreground was never recolored.
---
 writer/standard/writer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index d9ee6b4..9d8b2d7 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -113,10 +113,13 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	h := mat.Height()*opt.qrBlockWidth() + top + bottom
 
 	// The gradient recolors the pixels of the foreground color, so that color
-	// must differ from the background's while the blocks are drawn.
-	if opt.qrGradient != nil && opt.qrColor == opt.backgroundColor() {
+	// must be opaque and differ from the background's while the blocks are drawn.
+	if opt.qrGradient != nil && (opt.qrColor.A != 0xff || opt.qrColor == opt.backgroundColor()) {
 		distinct := *opt
-		distinct.qrColor.B ^= 1
+		distinct.qrColor.A = 0xff
+		if distinct.qrColor == opt.backgroundColor() {
+			distinct.qrColor.B ^= 1
+		}
 		opt = &distinct
 	}
 
@@ -228,7 +231,7 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	// Gradient fill
 	if opt.qrGradient != nil {
 		img := opt.qrGradient.applyGradient(dc.Image(), opt.qrColor)
-		dc.DrawImage(img, 0, 0)
+		dc = gg.NewContextForRGBA(img)
 	}
 
 	if opt.logoImage() == nil {
-- 
2.43.0

