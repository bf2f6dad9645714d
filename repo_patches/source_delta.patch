From 4753762573cc7b2902968f03987a20b3f0789ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 01/49] fix: producing output twice duplicated pages, contents
 and encryption objects

---
 cache_content_imported_object.go | 4 ++--
 gopdf.go                         | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cache_content_imported_object.go b/cache_content_imported_object.go
index a7dca9a..610ade4 100644
--- a/cache_content_imported_object.go
+++ b/cache_content_imported_object.go
@@ -15,7 +15,7 @@ type cacheContentImportedTemplate struct {
 }
 
 func (c *cacheContentImportedTemplate) write(w io.Writer, protection *PDFProtection) error {
-	c.tY += c.pageHeight
-	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY, c.tplName)
+	tY := c.tY + c.pageHeight
+	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, tY, c.tplName)
 	return nil
 }
diff --git a/gopdf.go b/gopdf.go
index 44c4435..195baac 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2235,9 +2235,9 @@ func (gp *GoPdf) protection() *PDFProtection {
 
 func (gp *GoPdf) prepare() {
 
-	if gp.isUseProtection() {
+	if gp.isUseProtection() && gp.encryptionObjID == 0 {
 		encObj := gp.pdfProtection.encryptionObj()
-		gp.addObj(encObj)
+		gp.encryptionObjID = gp.addObj(encObj) + 1
 	}
 
 	if gp.outlines.Count() > 0 {
@@ -2248,6 +2248,9 @@ func (gp *GoPdf) prepare() {
 	if gp.indexOfPagesObj != -1 {
 		indexCurrPage := -1
 		pagesObj := gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
+		//prepare may run many times (once per output), start from scratch each time
+		pagesObj.Kids = ""
+		pagesObj.PageCount = 0
 		i := 0 //gp.indexOfFirstPageObj
 		max := len(gp.pdfObjs)
 		for i < max {
@@ -2256,6 +2259,7 @@ func (gp *GoPdf) prepare() {
 			case "Page":
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
+				gp.pdfObjs[i].(*PageObj).Contents = ""
 				indexCurrPage = i
 			case "Content":
 				if indexCurrPage != -1 {
-- 
2.43.0


From 47a7d72f2a6cbd31082ebc72aad10a4540eb75f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 02/49] fix: report write errors of the output destination
 instead of ignoring them

---
 gopdf.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 195baac..2197131 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1008,7 +1008,11 @@ func (gp *GoPdf) SetCharSpacing(charSpacing float64) error {
 
 // WritePdf : write pdf file
 func (gp *GoPdf) WritePdf(pdfPath string) error {
-	return os.WriteFile(pdfPath, gp.GetBytesPdf(), 0644)
+	b, err := gp.GetBytesPdfReturnErr()
+	if err != nil {
+		return err
+	}
+	return os.WriteFile(pdfPath, b, 0644)
 }
 
 // WriteTo implements the io.WriterTo interface and can
@@ -1057,18 +1061,24 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 		linelens[i] = writer.offset
 		pdfObj := gp.pdfObjs[i]
 		fmt.Fprintf(writer, "%d 0 obj\n", objID)
-		pdfObj.write(writer, objID)
+		if err := pdfObj.write(writer, objID); err != nil {
+			return writer.offset, err
+		}
 		io.WriteString(writer, "endobj\n\n")
+		if writer.err != nil {
+			return writer.offset, writer.err
+		}
 		i++
 	}
 	gp.xref(writer, writer.offset, linelens, i)
-	return writer.offset, nil
+	return writer.offset, writer.err
 }
 
 type (
 	countingWriter struct {
 		offset int64
 		writer io.Writer
+		err    error //first error of writer, nothing is written after it
 	}
 )
 
@@ -1077,8 +1087,15 @@ func newCountingWriter(w io.Writer) *countingWriter {
 }
 
 func (cw *countingWriter) Write(b []byte) (int, error) {
+	if cw.err != nil {
+		return 0, cw.err
+	}
 	n, err := cw.writer.Write(b)
 	cw.offset += int64(n)
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
+	cw.err = err
 	return n, err
 }
 
-- 
2.43.0


From 82818b63c2a08eeccabb23ccd4df04cfd948af91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 03/49] fix: SplitTextWithOption looped forever or panicked on
 narrow widths and with separators

---
 gopdf.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 2197131..05b6864 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1370,8 +1370,8 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 	if err != nil {
 		return nil, err
 	}
-	// possible (not conflicting) position of the separator within the currently processed line
-	separatorIdx := 0
+	// possible (not conflicting) position of the separator within the currently processed line, -1 if there is none
+	separatorIdx := -1
 	for i := 0; i < utf8TextsLen; i++ {
 		lineWidth, err := gp.MeasureTextWidth(string(lineText))
 		if err != nil {
@@ -1382,7 +1382,8 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 			return nil, err
 		}
 		// mid-word break required since the max width of the given rect is exceeded
-		if lineWidth+runeWidth > width && utf8Texts[i] != '\n' {
+		// (a rune which alone exceeds the width gets its own line)
+		if lineWidth+runeWidth > width && utf8Texts[i] != '\n' && len(lineText) > 0 {
 			// forceBreak will be set to true in case an indicator sensitive break was not possible which will cause
 			// strict break to not exceed the desired width
 			forceBreak := false
@@ -1393,12 +1394,14 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 			if opt.Mode == BreakModeStrict || forceBreak {
 				performStrictLineBreak(&lineTexts, &lineText, &i, separatorIdx, opt)
 			}
+			separatorIdx = -1
 			continue
 		}
 		// regular break due to a new line rune
 		if utf8Texts[i] == '\n' {
 			lineTexts = append(lineTexts, string(lineText))
 			lineText = lineText[0:0]
+			separatorIdx = -1
 			continue
 		}
 		// end of text
@@ -1506,7 +1509,7 @@ func performIndicatorSensitiveLineBreak(lineTexts *[]string, lineText *[]rune, i
 }
 
 func performStrictLineBreak(lineTexts *[]string, lineText *[]rune, i *int, separatorIdx int, opt *BreakOption) {
-	if opt.HasSeparator() && separatorIdx > -1 {
+	if opt.HasSeparator() && separatorIdx > *i-len(*lineText) {
 		// trim the line to the last possible index with an appended separator
 		trimIdx := *i - separatorIdx
 		*lineText = (*lineText)[0 : len(*lineText)-trimIdx]
-- 
2.43.0


From 4fe6e4fd49067ab9058da4120dd7442739294548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 04/49] fix: MultiCell drew a line past the cell height and an
 empty line before a too wide character

---
 gopdf.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 05b6864..d57ca46 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1204,12 +1204,15 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 		lineWidth, _ := gp.MeasureTextWidth(string(line))
 		runeWidth, _ := gp.MeasureTextWidth(string(v))
 
-		if lineWidth+runeWidth > rectangle.W {
+		if lineWidth+runeWidth > rectangle.W && len(line) > 0 {
 			gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line))
 			gp.Br(lineHeight)
 			gp.SetX(x)
 			totalLineHeight = totalLineHeight + lineHeight
 			line = nil
+			if totalLineHeight+lineHeight > rectangle.H {
+				break
+			}
 		}
 
 		line = append(line, v)
@@ -1248,7 +1251,7 @@ func (gp *GoPdf) IsFitMultiCell(rectangle *Rect, text string) (bool, float64, er
 		lineWidth, _ := gp.MeasureTextWidth(string(line))
 		runeWidth, _ := gp.MeasureTextWidth(string(v))
 
-		if lineWidth+runeWidth > rectangle.W {
+		if lineWidth+runeWidth > rectangle.W && len(line) > 0 {
 			totalLineHeight += lineHeight
 			line = nil
 		}
-- 
2.43.0


From 5d6d893a0a398ae2dda8883f6143445e19964df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 05/49] fix: page break helpers mixed points and document units

---
 gopdf.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index d57ca46..41fe00a 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -383,9 +383,9 @@ func (gp *GoPdf) GetX() float64 {
 func (gp *GoPdf) SetNewY(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -399,9 +399,9 @@ func (gp *GoPdf) SetNewY(y float64, h float64) {
 func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if y+h > gp.curr.pageSize.H-gp.MarginBottom() { // using new y(*y) instead of gp.curr.Y
+	if y+h > gp.curr.pageSize.H-gp.margins.Bottom { // using new y(*y) instead of gp.curr.Y
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -416,9 +416,9 @@ func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 func (gp *GoPdf) SetNewXY(y float64, x, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 	gp.SetX(x)
@@ -429,9 +429,9 @@ func (gp *GoPdf) SetNewXY(y float64, x, h float64) {
 func (gp *GoPdf) SetNewY(y float64, h float64) float64 {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 	return gp.GetY()
@@ -441,9 +441,9 @@ func (gp *GoPdf) SetNewY(y float64, h float64) float64 {
 func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) float64 {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if y+h > gp.curr.pageSize.H-gp.MarginBottom() { // using new y(*y) instead of gp.curr.Y
+	if y+h > gp.curr.pageSize.H-gp.margins.Bottom { // using new y(*y) instead of gp.curr.Y
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 	return gp.GetY()
@@ -453,9 +453,9 @@ func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) float64 {
 func (gp *GoPdf) SetNewXY(y float64, x, h float64) float64{
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 	gp.SetX(x)
-- 
2.43.0


From afd156c9fc81cfed357638832a87a5ab6c465bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 06/49] fix: rectangles and boxes ignored the custom conversion
 factor of the document unit

---
 gopdf.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 41fe00a..4db34ee 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -488,7 +488,7 @@ func (gp *GoPdf) SetXY(x, y float64) {
 func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect) error {
 	gp.UnitsToPointsVar(&x, &y)
 
-	rect = rect.UnitsToPoints(gp.config.Unit)
+	rect = rect.unitsToPoints(gp.config)
 
 	imageOptions := ImageOptions{
 		X:    x,
@@ -502,7 +502,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) error {
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
 
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -524,7 +524,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 		}
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
-		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.UnitsToPoints(gp.config.Unit)
+		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)
 
 		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
 		if err != nil {
@@ -732,7 +732,7 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 // Image : draw image
 func (gp *GoPdf) Image(picPath string, x float64, y float64, rect *Rect) error {
 	gp.UnitsToPointsVar(&x, &y)
-	rect = rect.UnitsToPoints(gp.config.Unit)
+	rect = rect.unitsToPoints(gp.config)
 	imgh, err := ImageHolderByPath(picPath)
 	if err != nil {
 		return err
@@ -762,7 +762,7 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 	}
 
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 	r, w := io.Pipe()
 	go func() {
 		bw := bufio.NewWriter(w)
@@ -804,8 +804,8 @@ func (gp *GoPdf) AddPage() {
 
 // AddPageWithOption  : add new page with option
 func (gp *GoPdf) AddPageWithOption(opt PageOption) {
-	opt.TrimBox = opt.TrimBox.UnitsToPoints(gp.config.Unit)
-	opt.PageSize = opt.PageSize.UnitsToPoints(gp.config.Unit)
+	opt.TrimBox = opt.TrimBox.unitsToPoints(gp.config)
+	opt.PageSize = opt.PageSize.unitsToPoints(gp.config)
 
 	page := new(PageObj)
 	page.init(func() *GoPdf {
@@ -1145,7 +1145,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 		opt.extGStateIndexes = append(opt.extGStateIndexes, transparency.extGStateIndex)
 	}
 
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	text, err = gp.curr.FontISubset.AddChars(text)
 	if err != nil {
 		return err
@@ -1160,7 +1160,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 // Cell : create cell of text ( use current x,y is upper-left corner of cell)
 // Note that this has no effect on Rect.H pdf (now). Fix later :-)
 func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	defaultopt := CellOption{
 		Align:  Left | Top,
 		Border: 0,
-- 
2.43.0


From 5ced0470ee03a084e5e566d0bc74f10db2f135b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 07/49] fix: ImageByHolderWithOptions changed the caller's mask
 options and ignored the unit of crops

---
 gopdf.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 4db34ee..1f9f03f 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -503,6 +503,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
 
 	opts.Rect = opts.Rect.unitsToPoints(gp.config)
+	opts.Crop = gp.cropUnitsToPoints(opts.Crop)
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -514,6 +515,9 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	}
 
 	if opts.Mask != nil {
+		mask := *opts.Mask //copy, the options of the caller must not be changed
+		opts.Mask = &mask
+
 		maskTransparency, err := gp.getCachedTransparency(opts.Mask.ImageOptions.Transparency)
 		if err != nil {
 			return err
@@ -525,6 +529,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
 		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)
+		opts.Mask.ImageOptions.Crop = gp.cropUnitsToPoints(opts.Mask.ImageOptions.Crop)
 
 		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
 		if err != nil {
@@ -537,6 +542,16 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	return gp.imageByHolder(img, opts)
 }
 
+// cropUnitsToPoints returns a copy of crop converted to points
+func (gp *GoPdf) cropUnitsToPoints(crop *CropOptions) *CropOptions {
+	if crop == nil {
+		return nil
+	}
+	c := *crop
+	gp.UnitsToPointsVar(&c.X, &c.Y, &c.Width, &c.Height)
+	return &c
+}
+
 func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 	var cacheImage *ImageCache
 	var cacheContentImage *cacheContentImage
-- 
2.43.0


From ecdccebe12dfc4bb740c5a9da992f638eaf709e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 08/49] fix: SetCustomLineType changed and kept the caller's
 slice

---
 gopdf.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 1f9f03f..a666ddf 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -205,11 +205,12 @@ func (gp *GoPdf) SetLineType(linetype string) {
 //	pdf.SetCustomLineType([]float64{0.8, 0.8}, 0)
 //	pdf.Line(50, 200, 550, 200)
 func (gp *GoPdf) SetCustomLineType(dashArray []float64, dashPhase float64) {
+	dashes := make([]float64, len(dashArray)) //the slice of the caller must not be changed or kept
 	for i := range dashArray {
-		gp.UnitsToPointsVar(&dashArray[i])
+		dashes[i] = gp.UnitsToPoints(dashArray[i])
 	}
 	gp.UnitsToPointsVar(&dashPhase)
-	gp.getContent().AppendStreamSetCustomLineType(dashArray, dashPhase)
+	gp.getContent().AppendStreamSetCustomLineType(dashes, dashPhase)
 }
 
 // Line : draw line
-- 
2.43.0


From aa6da490b45c6c3616d1ade480ae2d4120d4a0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 09/49] fix: trim boxes were dropped unless set together with a
 page size

---
 gopdf.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index a666ddf..4fe02c4 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -828,16 +828,16 @@ func (gp *GoPdf) AddPageWithOption(opt PageOption) {
 		return gp
 	})
 
+	if !opt.isTrimBoxSet() { //use default
+		opt.TrimBox = &gp.config.TrimBox
+	}
+	page.setOption(opt)
+	gp.curr.trimBox = opt.TrimBox
+
 	if !opt.isEmpty() { //use page option
-		page.setOption(opt)
 		gp.curr.pageSize = opt.PageSize
-
-		if opt.isTrimBoxSet() {
-			gp.curr.trimBox = opt.TrimBox
-		}
 	} else { //use default
 		gp.curr.pageSize = &gp.config.PageSize
-		gp.curr.trimBox = &gp.config.TrimBox
 	}
 
 	page.ResourcesRelate = strconv.Itoa(gp.indexOfProcSet+1) + " 0 R"
-- 
2.43.0


From 13fbde3ca4077807d5f76aa7ba443e7785de472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 10/49] fix: links, anchors and outline positions used the
 default page height on pages of another size

---
 gopdf.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 4fe02c4..befb401 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -870,7 +870,7 @@ func (gp *GoPdf) AddOutline(title string) {
 
 // AddOutlineWithPosition add an outline with position
 func (gp *GoPdf) AddOutlineWithPosition(title string) *OutlineObj {
-	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.config.PageSize.H-gp.curr.Y+20)
+	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.currPageHeight()-gp.curr.Y+20)
 }
 
 // AddHeader - add a header function, if present this will be automatically called by AddPage()
@@ -1745,7 +1745,7 @@ func (gp *GoPdf) ImportTemplates(tpls map[string]int) {
 func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, url, ""}
+	linkOpt := linkOption{x, gp.currPageHeight() - y, w, h, url, ""}
 	gp.addLink(linkOpt)
 }
 
@@ -1753,7 +1753,7 @@ func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 func (gp *GoPdf) AddInternalLink(anchor string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, "", anchor}
+	linkOpt := linkOption{x, gp.currPageHeight() - y, w, h, "", anchor}
 	gp.addLink(linkOpt)
 }
 
@@ -1767,10 +1767,18 @@ func (gp *GoPdf) addLink(option linkOption) {
 
 // SetAnchor creates a new anchor.
 func (gp *GoPdf) SetAnchor(name string) {
-	y := gp.config.PageSize.H - gp.curr.Y + float64(gp.curr.FontSize)
+	y := gp.currPageHeight() - gp.curr.Y + float64(gp.curr.FontSize)
 	gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}
 }
 
+// currPageHeight is the height (in points) of the current page
+func (gp *GoPdf) currPageHeight() float64 {
+	if gp.curr.pageSize == nil { //no page yet
+		return gp.config.PageSize.H
+	}
+	return gp.curr.pageSize.H
+}
+
 // AddTTFFontByReader adds font data by reader.
 func (gp *GoPdf) AddTTFFontData(family string, fontData []byte) error {
 	return gp.AddTTFFontDataWithOption(family, fontData, defaultTtfFontOption())
-- 
2.43.0


From 39368ab8bce5d6d1e92cfb48adff35d81713360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 11/49] fix: SetPage selected the wrong page when a page had no
 content and kept the size and links of the last page

---
 content_obj.go |  3 ++-
 gopdf.go       | 41 ++++++++++++++++++++++++++++++-----------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/content_obj.go b/content_obj.go
index 6dad489..e0cf7df 100644
--- a/content_obj.go
+++ b/content_obj.go
@@ -11,7 +11,8 @@ import (
 type ContentObj struct { //impl IObj
 	listCache listCacheContent
 	//text bytes.Buffer
-	getRoot func() *GoPdf
+	getRoot        func() *GoPdf
+	indexOfPageObj int //page of this content
 }
 
 func (c *ContentObj) protection() *PDFProtection {
diff --git a/gopdf.go b/gopdf.go
index befb401..8342d6c 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2293,7 +2293,6 @@ func (gp *GoPdf) prepare() {
 	}
 
 	if gp.indexOfPagesObj != -1 {
-		indexCurrPage := -1
 		pagesObj := gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
 		//prepare may run many times (once per output), start from scratch each time
 		pagesObj.Kids = ""
@@ -2307,10 +2306,11 @@ func (gp *GoPdf) prepare() {
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
 				gp.pdfObjs[i].(*PageObj).Contents = ""
-				indexCurrPage = i
 			case "Content":
-				if indexCurrPage != -1 {
-					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
+				indexOfPageObj := gp.pdfObjs[i].(*ContentObj).indexOfPageObj
+				if indexOfPageObj != -1 {
+					page := gp.pdfObjs[indexOfPageObj].(*PageObj)
+					page.Contents = fmt.Sprintf("%s %d 0 R ", page.Contents, i+1)
 				}
 			case "Font":
 				tmpfont := gp.pdfObjs[i].(*FontObj)
@@ -2419,6 +2419,7 @@ func (gp *GoPdf) getContent() *ContentObj {
 		content.init(func() *GoPdf {
 			return gp
 		})
+		content.indexOfPageObj = gp.curr.IndexOfPageObj
 		gp.indexOfContent = gp.addObj(content)
 	} else {
 		content = gp.pdfObjs[gp.indexOfContent].(*ContentObj)
@@ -2530,21 +2531,39 @@ func (gp *GoPdf) IsCurrFontContainGlyph(r rune) (bool, error) {
 
 // SetPage set current page
 func (gp *GoPdf) SetPage(pageno int) error {
-	var pageIndex int
+	var pageCount int
 	for i := 0; i < len(gp.pdfObjs); i++ {
-		switch gp.pdfObjs[i].(type) {
-		case *ContentObj:
-			pageIndex += 1
-			if pageIndex == pageno {
-				gp.indexOfContent = i
-				return nil
+		page, ok := gp.pdfObjs[i].(*PageObj)
+		if !ok {
+			continue
+		}
+		pageCount += 1
+		if pageCount == pageno {
+			gp.curr.IndexOfPageObj = i
+			gp.curr.pageSize = &gp.config.PageSize
+			if !page.pageOption.isEmpty() {
+				gp.curr.pageSize = page.pageOption.PageSize
 			}
+			gp.curr.trimBox = page.pageOption.TrimBox
+			gp.indexOfContent = gp.findContentOfPage(i)
+			return nil
 		}
 	}
 
 	return errors.New("invalid page number")
 }
 
+// findContentOfPage returns the index of content of the page, -1 if it has none yet
+func (gp *GoPdf) findContentOfPage(indexOfPageObj int) int {
+	for i := 0; i < len(gp.pdfObjs); i++ {
+		content, ok := gp.pdfObjs[i].(*ContentObj)
+		if ok && content.indexOfPageObj == indexOfPageObj {
+			return i
+		}
+	}
+	return -1
+}
+
 func (gp *GoPdf) SetColorSpace(name string) error {
 	found := false
 	i := 0
-- 
2.43.0


From cd0b03c8cdb964dd6f0ebb2f35691a5e3e56d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 12/49] fix: characters outside the basic multilingual plane
 were not encoded as UTF-16

---
 gopdf.go       | 17 ++++++++++++-----
 unicode_map.go |  2 +-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 8342d6c..385f4c6 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -16,6 +16,8 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/phpdave11/gofpdi"
 )
@@ -2427,18 +2429,23 @@ func (gp *GoPdf) getContent() *ContentObj {
 	return content
 }
 
+// encodeUtf8 returns str as UTF-16BE in hexadecimal
 func encodeUtf8(str string) string {
 	var buff bytes.Buffer
 	for _, r := range str {
-		c := fmt.Sprintf("%X", r)
-		for len(c) < 4 {
-			c = "0" + c
-		}
-		buff.WriteString(c)
+		buff.WriteString(encodeRune(r))
 	}
 	return buff.String()
 }
 
+// encodeRune returns r as UTF-16BE in hexadecimal (4 digits, or 8 for a surrogate pair)
+func encodeRune(r rune) string {
+	if r1, r2 := utf16.EncodeRune(r); r1 != utf8.RuneError {
+		return fmt.Sprintf("%04X%04X", r1, r2)
+	}
+	return fmt.Sprintf("%04X", r)
+}
+
 func infodate(t time.Time) string {
 	ft := t.Format("20060102150405-07'00'")
 	return ft
diff --git a/unicode_map.go b/unicode_map.go
index 5094482..365eb13 100644
--- a/unicode_map.go
+++ b/unicode_map.go
@@ -73,7 +73,7 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 	indexs := glyphIndexToCharacter.allIndexs()
 	for _, k := range indexs {
 		v, _ := glyphIndexToCharacter.runeByIndex(k)
-		fmt.Fprintf(buff, "<%04X><%04X><%04X>\n", k, k, v)
+		fmt.Fprintf(buff, "<%04X><%04X><%s>\n", k, k, encodeRune(v))
 	}
 	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
-- 
2.43.0


From 895735f0c929a0bab320e2522a3de77abcab3588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 13/49] fix: character maps had code ranges excluding used
 codes and too long blocks

---
 unicode_map.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/unicode_map.go b/unicode_map.go
index 365eb13..c7e4a84 100644
--- a/unicode_map.go
+++ b/unicode_map.go
@@ -45,19 +45,10 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 	suffix := "endcmap CMapName currentdict /CMap defineresource pop end end"
 
 	glyphIndexToCharacter := newMapGlyphIndexToCharacter() //make(map[int]rune)
-	lowIndex := 65536
-	hiIndex := -1
-
 	keys := u.PtrToSubsetFontObj.CharacterToGlyphIndex.AllKeys()
 	for _, k := range keys {
 		v, _ := u.PtrToSubsetFontObj.CharacterToGlyphIndex.Val(k)
 		index := int(v)
-		if index < lowIndex {
-			lowIndex = index
-		}
-		if index > hiIndex {
-			hiIndex = index
-		}
 		//glyphIndexToCharacter[index] = k
 		glyphIndexToCharacter.set(index, k)
 	}
@@ -67,15 +58,22 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 
 	buff.WriteString(prefix)
 	buff.WriteString("1 begincodespacerange\n")
-	fmt.Fprintf(buff, "<%04X><%04X>\n", lowIndex, hiIndex)
+	buff.WriteString("<0000><FFFF>\n") //the range is tested byte by byte, it must hold all codes
 	buff.WriteString("endcodespacerange\n")
-	fmt.Fprintf(buff, "%d beginbfrange\n", glyphIndexToCharacter.size())
 	indexs := glyphIndexToCharacter.allIndexs()
-	for _, k := range indexs {
-		v, _ := glyphIndexToCharacter.runeByIndex(k)
-		fmt.Fprintf(buff, "<%04X><%04X><%s>\n", k, k, encodeRune(v))
+	for len(indexs) > 0 {
+		n := len(indexs)
+		if n > 100 { //limit of entries in one block
+			n = 100
+		}
+		fmt.Fprintf(buff, "%d beginbfrange\n", n)
+		for _, k := range indexs[:n] {
+			v, _ := glyphIndexToCharacter.runeByIndex(k)
+			fmt.Fprintf(buff, "<%04X><%04X><%s>\n", k, k, encodeRune(v))
+		}
+		buff.WriteString("endbfrange\n")
+		indexs = indexs[n:]
 	}
-	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
 	buff.WriteString("\n")
 
-- 
2.43.0


From e0fcb3eb03cafd3ad41e2f565e9bae7327923865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 14/49] fix: outline items had wrong parent and previous
 references and the outline a wrong last item

---
 outlines_obj.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index 13cae66..b7be78c 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -53,7 +53,7 @@ func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 }
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1}
+	oo := &OutlineObj{outlines: o, title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -63,11 +63,12 @@ func (o *OutlinesObj) AddOutline(dest int, title string) {
 	}
 	o.lastObj = oo
 	o.count++
+	oo.index = o.last
 }
 
 // AddOutlinesWithPosition add outlines with position
 func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64) *OutlineObj {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, height: y}
+	oo := &OutlineObj{outlines: o, title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1, height: y}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -87,15 +88,16 @@ func (o *OutlinesObj) Count() int {
 
 // OutlineObj include attribute of outline
 type OutlineObj struct { //impl IObj
-	title  string
-	index  int
-	dest   int
-	parent int
-	prev   int
-	next   int
-	first  int
-	last   int
-	height float64
+	outlines *OutlinesObj
+	title    string
+	index    int
+	dest     int
+	parent   int
+	prev     int
+	next     int
+	first    int
+	last     int
+	height   float64
 }
 
 func (o *OutlineObj) init(funcGetRoot func() *GoPdf) {
@@ -180,7 +182,7 @@ func (objs OutlineNodes) Parse() {
 		if i == 0 {
 			obj.Obj.SetPrev(-1)
 		} else {
-			obj.Obj.SetNext(objs[i-1].Obj.GetIndex())
+			obj.Obj.SetPrev(objs[i-1].Obj.GetIndex())
 		}
 		if i == len(objs)-1 {
 			obj.Obj.SetNext(-1)
@@ -190,6 +192,15 @@ func (objs OutlineNodes) Parse() {
 		obj.Parse()
 	}
 
+	if len(objs) > 0 && objs[0].Obj.outlines != nil {
+		outlines := objs[0].Obj.outlines
+		for _, obj := range objs {
+			obj.Obj.SetParent(outlines.index + 1)
+		}
+		outlines.first = objs[0].Obj.GetIndex()
+		outlines.lastObj = objs[len(objs)-1].Obj
+		outlines.last = outlines.lastObj.GetIndex()
+	}
 }
 
 // Parse parse outline
-- 
2.43.0


From 2f9b42ec303076d1e6a0f35ba59e35bbfa6a6104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 15/49] fix: outline titles and mask groups were not encrypted
 in protected documents

---
 gopdf.go                      |  1 +
 outlines_obj.go               | 22 +++++++++++++++++++++-
 transparency_xobject_group.go | 13 +++++++++++--
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 385f4c6..a0ef158 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -640,6 +640,7 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 	}
 
 	groupOpts := TransparencyXObjectGroupOptions{
+		Protection:       gp.protection(),
 		BBox:             *bbox,
 		ExtGStateIndexes: opts.extGStateIndexes,
 		XObjects:         []cacheContentImage{*image},
diff --git a/outlines_obj.go b/outlines_obj.go
index b7be78c..f53fc45 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -1,6 +1,7 @@
 package gopdf
 
 import (
+	"encoding/hex"
 	"fmt"
 	"io"
 )
@@ -162,11 +163,30 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 		fmt.Fprintf(w, "  /Last %d 0 R\n", o.last)
 	}
 	fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
-	fmt.Fprintf(w, "  /Title <FEFF%s>\n", encodeUtf8(o.title))
+	title := "FEFF" + encodeUtf8(o.title)
+	if protection := o.protection(); protection != nil {
+		b, err := hex.DecodeString(title)
+		if err != nil {
+			return err
+		}
+		tmp, err := rc4Cip(protection.objectkey(objID), b)
+		if err != nil {
+			return err
+		}
+		title = fmt.Sprintf("%X", tmp)
+	}
+	fmt.Fprintf(w, "  /Title <%s>\n", title)
 	io.WriteString(w, ">>\n")
 	return nil
 }
 
+func (o *OutlineObj) protection() *PDFProtection {
+	if o.outlines == nil {
+		return nil
+	}
+	return o.outlines.getRoot().protection()
+}
+
 // OutlineNode is a node of outline
 type OutlineNode struct {
 	Obj      *OutlineObj
diff --git a/transparency_xobject_group.go b/transparency_xobject_group.go
index e58b1cc..b4d54b1 100644
--- a/transparency_xobject_group.go
+++ b/transparency_xobject_group.go
@@ -64,6 +64,15 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 		}
 	}
 
+	stream := streamBuff.Bytes()
+	if s.protection() != nil {
+		tmp, err := rc4Cip(s.protection().objectkey(objId), stream)
+		if err != nil {
+			return err
+		}
+		stream = tmp
+	}
+
 	content := "<<\n"
 	content += "\t/FormType 1\n"
 	content += "\t/Subtype /Form\n"
@@ -72,7 +81,7 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 	content += fmt.Sprintf("\t/BBox [%.3F %.3F %.3F %.3F]\n", s.BBox[0], s.BBox[1], s.BBox[2], s.BBox[3])
 	content += "\t/Group<</CS /DeviceGray /S /Transparency>>\n"
 
-	content += fmt.Sprintf("\t/Length %d\n", len(streamBuff.Bytes()))
+	content += fmt.Sprintf("\t/Length %d\n", len(stream))
 	content += ">>\n"
 	content += "stream\n"
 
@@ -80,7 +89,7 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 		return err
 	}
 
-	if _, err := w.Write(streamBuff.Bytes()); err != nil {
+	if _, err := w.Write(stream); err != nil {
 		return err
 	}
 
-- 
2.43.0


From dee886d08f217c4f25a583e0d5aef8f804a3e6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 16/49] fix: password padding was written into the memory
 behind the caller's passwords

---
 pdf_protection.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pdf_protection.go b/pdf_protection.go
index 6190938..f3132af 100644
--- a/pdf_protection.go
+++ b/pdf_protection.go
@@ -49,10 +49,8 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
-	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
-	ownerPassWithPadding := ownerPass[0:32]
+	userPassWithPadding := p.padPassword(userPass)
+	ownerPassWithPadding := p.padPassword(ownerPass)
 
 	//oValue
 	oValue, err := p.createOValue(userPassWithPadding, ownerPassWithPadding)
@@ -71,6 +69,14 @@ func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte,
 	return nil
 }
 
+// padPassword returns the password padded to 32 bytes, in memory of its own
+func (p *PDFProtection) padPassword(pass []byte) []byte {
+	padded := make([]byte, 0, len(pass)+len(protectionPadding))
+	padded = append(padded, pass...)
+	padded = append(padded, protectionPadding...)
+	return padded[0:32]
+}
+
 // EncryptionObj get Encryption Object
 func (p *PDFProtection) EncryptionObj() *EncryptionObj {
 	return p.encryptionObj()
-- 
2.43.0


From d0d649d5e9aa866f8985a4e1545ea38a425d3304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 17/49] fix: consecutive texts were merged although drawn
 differently or not adjacent

---
 cache_content_text.go | 10 +++++++++-
 cell_option.go        | 20 ++++++++++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index e6d01ff..73f1967 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -45,11 +45,19 @@ type cacheContentText struct {
 }
 
 func (c *cacheContentText) isSame(cache cacheContentText) bool {
-	if c.rectangle != nil {
+	if c.rectangle != nil || cache.rectangle != nil {
 		//if rectangle != nil we assume this is not same content
 		return false
 	}
 
+	//cache must continue where c ends and be drawn in the same way
+	if c.x+c.cellWidthPdfUnit != cache.x ||
+		c.contentType != cache.contentType ||
+		c.txtColorMode != cache.txtColorMode ||
+		!c.cellOpt.isSameRun(cache.cellOpt) {
+		return false
+	}
+
 	// if both colors are nil we assume them equal
 	if ((c.textColor == nil && cache.textColor == nil) ||
 		(c.textColor != nil && c.textColor.equal(cache.textColor))) &&
diff --git a/cell_option.go b/cell_option.go
index 6a1134b..edc691e 100644
--- a/cell_option.go
+++ b/cell_option.go
@@ -30,3 +30,23 @@ type CellOption struct {
 
 	extGStateIndexes []int
 }
+
+// isSameRun : text written with other can be appended to text written with c
+func (c CellOption) isSameRun(other CellOption) bool {
+	if c.Border != 0 || other.Border != 0 { //each text has its own border
+		return false
+	}
+	if len(c.extGStateIndexes) != len(other.extGStateIndexes) {
+		return false
+	}
+	for i := range c.extGStateIndexes {
+		if c.extGStateIndexes[i] != other.extGStateIndexes[i] {
+			return false
+		}
+	}
+	return c.Align == other.Align &&
+		c.Float == other.Float &&
+		c.CoefUnderlinePosition == other.CoefUnderlinePosition &&
+		c.CoefLineHeight == other.CoefLineHeight &&
+		c.CoefUnderlineThickness == other.CoefUnderlineThickness
+}
-- 
2.43.0


From 4393d1914772befb501cde742abb0dad2add21db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 18/49] fix: text color changed the fill color of the shapes
 drawn after the text

---
 cache_content_text.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index 73f1967..a6d68d7 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -207,8 +207,10 @@ func (c *cacheContentText) write(w io.Writer, protection *PDFProtection) error {
 		return err
 	}
 
-	hasTransparency := len(c.cellOpt.extGStateIndexes) > 0
-	if hasTransparency {
+	//the text color must not change the fill color of what is drawn after the text
+	isColorMode := c.txtColorMode == "color"
+	mustSaveState := isColorMode || len(c.cellOpt.extGStateIndexes) > 0
+	if mustSaveState {
 		if _, err := io.WriteString(w, "q\n"); err != nil {
 			return err
 		}
@@ -228,7 +230,7 @@ func (c *cacheContentText) write(w io.Writer, protection *PDFProtection) error {
 	fmt.Fprintf(w, "%0.2f %0.2f TD\n", x, y)
 	fmt.Fprintf(w, "/F%d %s Tf %s Tc\n", c.fontCountIndex, FormatFloatTrim(c.fontSize), FormatFloatTrim(c.charSpacing))
 
-	if c.txtColorMode == "color" {
+	if isColorMode {
 		c.textColor.write(w, protection)
 	}
 	io.WriteString(w, "[<")
@@ -292,7 +294,7 @@ func (c *cacheContentText) write(w io.Writer, protection *PDFProtection) error {
 
 	c.drawBorder(w)
 
-	if hasTransparency {
+	if mustSaveState {
 		if _, err := io.WriteString(w, "Q\n"); err != nil {
 			return err
 		}
-- 
2.43.0


From 2dfabfbb2022365eb2164e1d2184e22f02bc528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 19/49] fix: transparencies without blend mode or with alpha 1
 gave wrong graphics states and the caller's value was changed

---
 gopdf.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index a0ef158..e3c781e 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2489,15 +2489,21 @@ func (gp *GoPdf) getCachedTransparency(transparency *Transparency) (*Transparenc
 }
 
 func (gp *GoPdf) saveTransparency(transparency *Transparency) (*Transparency, error) {
-	cached, ok := gp.curr.transparencyMap.Find(*transparency)
+	//checked copy, the value of the caller must not be changed or kept
+	t, err := NewTransparency(transparency.Alpha, string(transparency.BlendModeType))
+	if err != nil {
+		return nil, err
+	}
+
+	cached, ok := gp.curr.transparencyMap.Find(t)
 	if ok {
 		return &cached, nil
-	} else if transparency.Alpha != DefaultAplhaValue {
-		bm := transparency.BlendModeType
+	} else if t.Alpha != DefaultAplhaValue || t.BlendModeType != NormalBlendMode {
+		alpha, bm := t.Alpha, t.BlendModeType
 		opts := ExtGStateOptions{
 			BlendMode:     &bm,
-			StrokingCA:    &transparency.Alpha,
-			NonStrokingCa: &transparency.Alpha,
+			StrokingCA:    &alpha,
+			NonStrokingCa: &alpha,
 		}
 
 		extGState, err := GetCachedExtGState(opts, gp)
@@ -2505,11 +2511,11 @@ func (gp *GoPdf) saveTransparency(transparency *Transparency) (*Transparency, er
 			return nil, err
 		}
 
-		transparency.extGStateIndex = extGState.Index + 1
+		t.extGStateIndex = extGState.Index + 1
 
-		gp.curr.transparencyMap.Save(*transparency)
+		gp.curr.transparencyMap.Save(t)
 
-		return transparency, nil
+		return &t, nil
 	}
 
 	return nil, nil
-- 
2.43.0


From 88a06379ce835db8cbe79e9f994095ac1aebe1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 20/49] fix: placeholders used the current instead of the
 reserved font, wrong units and moved when filled again

---
 gopdf.go       | 24 +++++++++++++-----------
 placeholder.go |  1 +
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index e3c781e..9d2c1d0 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1450,7 +1450,8 @@ func (gp *GoPdf) PlaceHolderText(placeHolderName string, placeHolderWidth float6
 		return err
 	}
 
-	gp.PointsToUnitsVar(&placeHolderWidth)
+	x := gp.curr.X
+	gp.UnitsToPointsVar(&placeHolderWidth)
 	err = gp.getContent().appendStreamPlaceHolderText(placeHolderWidth)
 	if err != nil {
 		return err
@@ -1468,6 +1469,7 @@ func (gp *GoPdf) PlaceHolderText(placeHolderName string, placeHolderWidth float6
 			indexInContent:   indexInContent,
 			fontISubset:      fontISubset,
 			placeHolderWidth: placeHolderWidth,
+			x:                x,
 			fontSize:         gp.curr.FontSize,
 			charSpacing:      gp.curr.CharSpacing,
 		},
@@ -1495,22 +1497,22 @@ func (gp *GoPdf) FillInPlaceHoldText(placeHolderName string, text string, align
 		if !ok {
 			return errors.New("listCache.caches is not *cacheContentText")
 		}
-		info.fontISubset.AddChars(text)
-		contentText.text = text
-
-		//Calculate position
-		_, _, textWidthPdfUnit, err := createContent(gp.curr.FontISubset, text, info.fontSize, info.charSpacing, nil)
+		infoText, err := info.fontISubset.AddChars(text)
 		if err != nil {
 			return err
 		}
-		width := pointsToUnits(gp.config, textWidthPdfUnit)
+		contentText.text = infoText
+		if _, _, err := contentText.createContent(); err != nil {
+			return err
+		}
 
+		//Calculate position (the place holder may have been filled before)
+		diff := info.placeHolderWidth - contentText.textWidthPdfUnit
+		contentText.x = info.x
 		if align == Right {
-			diff := info.placeHolderWidth - width
-			contentText.x = contentText.x + diff
+			contentText.x = info.x + diff
 		} else if align == Center {
-			diff := info.placeHolderWidth - width
-			contentText.x = contentText.x + diff/2
+			contentText.x = info.x + diff/2
 		}
 	}
 
diff --git a/placeholder.go b/placeholder.go
index fb49508..270e804 100644
--- a/placeholder.go
+++ b/placeholder.go
@@ -12,4 +12,5 @@ type placeHolderTextInfo struct {
 	placeHolderWidth float64
 	fontSize         float64
 	charSpacing      float64
+	x                float64 //where the place holder starts
 }
-- 
2.43.0


From 5851ac4e73cd30092f5625d69882255c64de6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 21/49] fix: components of nested composite glyphs were not
 embedded

---
 pdf_dictionary_obj.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index 5f771e1..7b3fbbd 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -293,11 +293,9 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 		glyphArray = append(glyphArray, 0)
 	}
 
-	i := 0
-	count := len(glyphs)
-	for i < count {
+	//components can be composite glyphs too, glyphArray grows meanwhile
+	for i := 0; i < len(glyphArray); i++ {
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
-		i++
 	}
 	return glyphArray
 }
-- 
2.43.0


From 3a7831d979d5dd6fdbcb4375d3a7b844c65cd50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 22/49] fix: images used with mask, as mask and plain shared
 one object, and a repeated image kept its first size

---
 current.go | 10 ++++++++++
 gopdf.go   | 45 ++++++++++++++++++++++++++++-----------------
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/current.go b/current.go
index fe1313a..53112ce 100644
--- a/current.go
+++ b/current.go
@@ -69,4 +69,14 @@ type ImageCache struct {
 	Path  string //ID or Path
 	Index int
 	Rect  *Rect
+	use   imageUse
 }
+
+// imageUse is how an image is used, an image object fits one use only
+type imageUse int
+
+const (
+	imageUsePlain  imageUse = iota //with its own alpha channel
+	imageUseMasked                 //with a mask instead of its own alpha channel
+	imageUseMask                   //as mask
+)
diff --git a/gopdf.go b/gopdf.go
index 9d2c1d0..960e1c9 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -556,17 +556,11 @@ func (gp *GoPdf) cropUnitsToPoints(crop *CropOptions) *CropOptions {
 }
 
 func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
-	var cacheImage *ImageCache
 	var cacheContentImage *cacheContentImage
 
-	for _, imgcache := range gp.curr.ImgCaches {
-		if img.ID() == imgcache.Path {
-			cacheImage = &imgcache
-			break
-		}
-	}
+	cacheImageIndex := gp.findImageCache(img.ID(), imageUseMask)
 
-	if cacheImage == nil {
+	if cacheImageIndex == -1 {
 		maskImgobj := &ImageObj{IsMask: true}
 		maskImgobj.init(func() *GoPdf {
 			return gp
@@ -598,16 +592,21 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 				Index: index,
 				Path:  img.ID(),
 				Rect:  opts.Rect,
+				use:   imageUseMask,
 			}
 			gp.curr.ImgCaches[index] = imgcache
 			gp.curr.CountOfImg++
 		}
 	} else {
 		if opts.Rect == nil {
-			opts.Rect = gp.curr.ImgCaches[cacheImage.Index].Rect
+			rect, err := gp.pdfObjs[cacheImageIndex].(*ImageObj).getRect()
+			if err != nil {
+				return 0, err
+			}
+			opts.Rect = rect
 		}
 
-		cacheContentImage = gp.getContent().GetCacheContentImage(cacheImage.Index, opts.ImageOptions)
+		cacheContentImage = gp.getContent().GetCacheContentImage(cacheImageIndex, opts.ImageOptions)
 	}
 
 	if cacheContentImage != nil {
@@ -666,15 +665,22 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 	return extGState.Index + 1, nil
 }
 
-func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
-	cacheImageIndex := -1
-
+// findImageCache returns the index of the image object embedded for this use, -1 if there is none yet
+func (gp *GoPdf) findImageCache(id string, use imageUse) int {
 	for _, imgcache := range gp.curr.ImgCaches {
-		if img.ID() == imgcache.Path {
-			cacheImageIndex = imgcache.Index
-			break
+		if imgcache.Path == id && imgcache.use == use {
+			return imgcache.Index
 		}
 	}
+	return -1
+}
+
+func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
+	use := imageUsePlain
+	if opts.Mask != nil {
+		use = imageUseMasked
+	}
+	cacheImageIndex := gp.findImageCache(img.ID(), use)
 
 	if cacheImageIndex == -1 { //new image
 
@@ -715,6 +721,7 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 			imgcache.Index = index
 			imgcache.Path = img.ID()
 			imgcache.Rect = opts.Rect
+			imgcache.use = use
 			gp.curr.ImgCaches[index] = imgcache
 			gp.curr.CountOfImg++
 		}
@@ -740,7 +747,11 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 
 	} else { //same img
 		if opts.Rect == nil {
-			opts.Rect = gp.curr.ImgCaches[cacheImageIndex].Rect
+			rect, err := gp.pdfObjs[cacheImageIndex].(*ImageObj).getRect()
+			if err != nil {
+				return err
+			}
+			opts.Rect = rect
 		}
 
 		gp.getContent().AppendStreamImage(cacheImageIndex, opts)
-- 
2.43.0


From 9a0ecc2464b963fd4186d7fb422bed81a29204f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 23/49] fix: SetCompressLevel ignored levels above 9 instead of
 using the best compression

---
 gopdf.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 960e1c9..c8bfae3 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -179,7 +179,6 @@ func (gp *GoPdf) SetCompressLevel(level int) {
 	} else if level > zlib.BestCompression {
 		fmt.Fprintf(os.Stderr, errfmt, "big", "BestCompression")
 		level = zlib.BestCompression
-		return
 	}
 	// sanity check complete
 	gp.compressLevel = level
-- 
2.43.0


From b789446e95f0987ba2d042cdfe804066895ecced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 24/49] fix: starting again kept the number of pages and the
 header and footer functions

---
 gopdf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index c8bfae3..18f9ea2 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2201,6 +2201,9 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 	gp.encryptionObjID = 0
 	gp.isUseInfo = false
 	gp.info = nil
+	gp.numOfPagesObj = 0
+	gp.headerFunc = nil
+	gp.footerFunc = nil
 
 	//default
 	gp.margins = Margins{
-- 
2.43.0


From 6c4bd0638536fc92c452271b8eb4543fe0ce40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 25/49] fix: imported templates were listed in a different
 order in each output

---
 procset_obj.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/procset_obj.go b/procset_obj.go
index 77da7ac..9b7ea2d 100644
--- a/procset_obj.go
+++ b/procset_obj.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"fmt"
 	"io"
+	"sort"
 )
 
 // ProcSetObj is a PDF procSet object.
@@ -47,8 +48,13 @@ func (pr *ProcSetObj) write(w io.Writer, objID int) error {
 		xobjects += fmt.Sprintf("\t\t/I%d %d 0 R\n", XObject.IndexOfObj+1, XObject.IndexOfObj+1)
 	}
 	// Write imported template name and their ids
-	for tplName, objID := range pr.ImportedTemplateIds {
-		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, objID)
+	var tplNames []string
+	for tplName := range pr.ImportedTemplateIds {
+		tplNames = append(tplNames, tplName)
+	}
+	sort.Strings(tplNames) //same order in each output
+	for _, tplName := range tplNames {
+		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, pr.ImportedTemplateIds[tplName])
 	}
 	xobjects += "\t>>\n"
 
-- 
2.43.0


From 3ec85c4b34a632ce1d715694e43e11b0879429b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 26/49] fix: a link to an anchor that is never set wrote an
 empty object

---
 annot_obj.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/annot_obj.go b/annot_obj.go
index dd10a7a..6f532a1 100644
--- a/annot_obj.go
+++ b/annot_obj.go
@@ -48,8 +48,10 @@ func (o annotObj) writeExternalLink(w io.Writer, l linkOption, objID int) error
 
 func (o annotObj) writeInternalLink(w io.Writer, l linkOption) error {
 	a, ok := o.GetRoot().anchors[l.anchor]
-	if !ok {
-		return nil
+	if !ok { //no such anchor, the link leads nowhere
+		_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0]>>\n",
+			l.x, l.y, l.x+l.w, l.y-l.h)
+		return err
 	}
 	_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0] /Dest [%d 0 R /XYZ 0 %.2f null]>>\n",
 		l.x, l.y, l.x+l.w, l.y-l.h, a.page+1, a.y)
-- 
2.43.0


From e7959179a96d99ee27b420afc4ef36e78ab38222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 27/49] fix: a refused color space was added to the file
 nevertheless

---
 gopdf.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 18f9ea2..1ba5446 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2639,8 +2639,6 @@ func (gp *GoPdf) AddColorSpaceCMYK(name string, c, m, y, k uint8) error {
 }
 
 func (gp *GoPdf) addColorSpace(colorSpace *ColorSpaceObj) error {
-	index := gp.addObj(colorSpace)
-
 	if gp.indexOfProcSet != -1 {
 		procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
 
@@ -2650,6 +2648,7 @@ func (gp *GoPdf) addColorSpace(colorSpace *ColorSpaceObj) error {
 			}
 		}
 
+		index := gp.addObj(colorSpace)
 		procset.RelateColorSpaces = append(procset.RelateColorSpaces, RelateColorSpace{Name: colorSpace.Name, IndexOfObj: index, CountOfColorSpace: gp.curr.CountOfColorSpace})
 		colorSpace.CountOfSpaceColor = gp.curr.CountOfColorSpace
 		gp.curr.CountOfColorSpace++
-- 
2.43.0


From 3d107b87a56aef639e8f1b5d5f8801ea023a5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 28/49] fix: color space and font names with special characters
 broke the file

---
 color_space_obj.go | 18 ++++++++++++++++--
 strhelper.go       |  2 +-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/color_space_obj.go b/color_space_obj.go
index f447fbf..a250d0d 100644
--- a/color_space_obj.go
+++ b/color_space_obj.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"fmt"
 	"io"
+	"strings"
 )
 
 type ColorSpaceObj struct {
@@ -39,12 +40,25 @@ func (cs *ColorSpaceObj) SetColorRBG(r, g, b uint8) {
 	cs.colorString0 = "0.0 0.0 0.0"
 	cs.colorString1 = fmt.Sprintf("%.3f %.3f %.3f", float64(r)/255.0, float64(g)/255.0, float64(b)/255.0)
 	cs.space = "/DeviceRGB"
-	cs.spaceName = fmt.Sprintf("/%s", cs.Name)
+	cs.spaceName = pdfName(cs.Name)
 }
 
 func (cs *ColorSpaceObj) SetColorCMYK(c, m, y, k uint8) {
 	cs.colorString0 = "0.0 0.0 0.0 0.0"
 	cs.colorString1 = fmt.Sprintf("%.3f %.3f %.3f %.3f", float64(c)/100.0, float64(m)/100.0, float64(y)/100.0, float64(k)/100.0)
 	cs.space = "/DeviceCMYK"
-	cs.spaceName = fmt.Sprintf("/%s", cs.Name)
+	cs.spaceName = pdfName(cs.Name)
+}
+
+// pdfName returns name as a name object
+func pdfName(name string) string {
+	buff := []byte("/")
+	for _, b := range []byte(name) {
+		if b <= ' ' || b >= 0x7f || strings.IndexByte("()<>[]{}/%#", b) >= 0 {
+			buff = append(buff, fmt.Sprintf("#%02X", b)...)
+		} else {
+			buff = append(buff, b)
+		}
+	}
+	return string(buff)
 }
diff --git a/strhelper.go b/strhelper.go
index b91af9d..8265b6b 100644
--- a/strhelper.go
+++ b/strhelper.go
@@ -28,7 +28,7 @@ func StrHelperGetStringWidthPrecise(str string, fontSize float64, ifont IFont) f
 func CreateEmbeddedFontSubsetName(name string) string {
 	name = strings.Replace(name, " ", "+", -1)
 	name = strings.Replace(name, "/", "+", -1)
-	return name
+	return pdfName(name)[1:]
 }
 
 // ReadShortFromByte read short from byte array
-- 
2.43.0


From d08f475ba832114b372300c54cd1060c0c12a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 29/49] fix: character collection names were not encrypted in
 protected documents

---
 cid_font_obj.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/cid_font_obj.go b/cid_font_obj.go
index da8db9b..b6dd028 100644
--- a/cid_font_obj.go
+++ b/cid_font_obj.go
@@ -10,9 +10,23 @@ import (
 type CIDFontObj struct {
 	PtrToSubsetFontObj        *SubsetFontObj
 	indexObjSubfontDescriptor int
+	getRoot                   func() *GoPdf
 }
 
 func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
+	ci.getRoot = funcGetRoot
+}
+
+// textString returns str as string object, encrypted if the document is protected
+func (ci *CIDFontObj) textString(str string, objID int) (string, error) {
+	if ci.getRoot == nil || ci.getRoot().protection() == nil {
+		return "(" + str + ")", nil
+	}
+	tmp, err := rc4Cip(ci.getRoot().protection().objectkey(objID), []byte(str))
+	if err != nil {
+		return "", err
+	}
+	return fmt.Sprintf("<%X>", tmp), nil
 }
 
 // SetIndexObjSubfontDescriptor set  indexObjSubfontDescriptor
@@ -25,12 +39,21 @@ func (ci *CIDFontObj) getType() string {
 }
 
 func (ci *CIDFontObj) write(w io.Writer, objID int) error {
+	ordering, err := ci.textString("Identity", objID)
+	if err != nil {
+		return err
+	}
+	registry, err := ci.textString("Adobe", objID)
+	if err != nil {
+		return err
+	}
+
 	io.WriteString(w, "<<\n")
 	fmt.Fprintf(w, "/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily()))
 	io.WriteString(w, "/CIDSystemInfo\n")
 	io.WriteString(w, "<<\n")
-	io.WriteString(w, "  /Ordering (Identity)\n")
-	io.WriteString(w, "  /Registry (Adobe)\n")
+	fmt.Fprintf(w, "  /Ordering %s\n", ordering)
+	fmt.Fprintf(w, "  /Registry %s\n", registry)
 	io.WriteString(w, "  /Supplement 0\n")
 	io.WriteString(w, ">>\n")
 	fmt.Fprintf(w, "/FontDescriptor %d 0 R\n", ci.indexObjSubfontDescriptor+1) //TODO fix
-- 
2.43.0


From ba3abce59d2539823958b2188a9897e5b9544927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 30/49] fix: imported objects were ended twice

---
 imported_obj.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/imported_obj.go b/imported_obj.go
index b42189b..8178cbf 100644
--- a/imported_obj.go
+++ b/imported_obj.go
@@ -2,6 +2,7 @@ package gopdf
 
 import (
 	"io"
+	"strings"
 )
 
 // ImportedObj : imported object
@@ -19,7 +20,8 @@ func (c *ImportedObj) getType() string {
 
 func (c *ImportedObj) write(w io.Writer, objID int) error {
 	if c != nil {
-		io.WriteString(w, c.Data)
+		//gofpdi ends the object itself, compilePdf does it for all objects
+		io.WriteString(w, strings.TrimSuffix(c.Data, "endobj\n"))
 	}
 	return nil
 }
-- 
2.43.0


From 2ff3620b420642ffa1d5aa4c9d00fe9eea0ecc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 31/49] fix: imported pages were scaled by the unit of the
 document

---
 gopdf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 1ba5446..5d740a3 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1722,8 +1722,8 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		// Import gofpdi objects into gopdf, starting at whatever the value of startObjID is
 		gp.ImportObjects(imported, startObjID)
 
-		// Draws the imported template on the current page
-		gp.UseImportedTemplate(tpl, 0, 0, size["w"], size["h"])
+		// Draws the imported template on the current page (the size of the page is in points)
+		gp.UseImportedTemplate(tpl, 0, 0, gp.PointsToUnits(size["w"]), gp.PointsToUnits(size["h"]))
 	}
 
 	return nil
-- 
2.43.0


From 0e5612ea96c7afe7adc47ae524c60b1ce2938cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 32/49] fix: creation dates dropped the minutes of the time
 zone

---
 gopdf.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 5d740a3..db9ab4b 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2463,8 +2463,9 @@ func encodeRune(r rune) string {
 }
 
 func infodate(t time.Time) string {
-	ft := t.Format("20060102150405-07'00'")
-	return ft
+	ft := t.Format("20060102150405-0700")
+	n := len(ft) - len("00")
+	return ft[:n] + "'" + ft[n:] + "'"
 }
 
 // SetTransparency sets transparency.
-- 
2.43.0


From fc517248a2f396ce4d7897b0d52ceab7778fc67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 33/49] fix: font data given as a slice is copied, later
 changes of the slice do not matter

---
 subset_font_obj.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subset_font_obj.go b/subset_font_obj.go
index cb37664..d0ce158 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -126,7 +126,8 @@ func (s *SubsetFontObj) SetTTFByReader(rd io.Reader) error {
 func (s *SubsetFontObj) SetTTFData(data []byte) error {
 	useKerning := s.ttfFontOption.UseKerning
 	s.ttfp.SetUseKerning(useKerning)
-	err := s.ttfp.ParseFontData(data)
+	//the parser keeps the data until the font is embedded, the caller may reuse its slice
+	err := s.ttfp.ParseFontData(append([]byte(nil), data...))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b3f608aa0f42094e5aa86241a37ca669eb6cc6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 34/49] fix: no extra line end after the data of protected
 images

---
 image_obj.go | 3 ---
 smask_obj.go | 1 -
 2 files changed, 4 deletions(-)

diff --git a/image_obj.go b/image_obj.go
index c17607b..e68944e 100644
--- a/image_obj.go
+++ b/image_obj.go
@@ -69,9 +69,6 @@ func (i *ImageObj) write(w io.Writer, objID int) error {
 		if _, err := w.Write(tmp); err != nil {
 			return err
 		}
-		if _, err := io.WriteString(w, "\n"); err != nil {
-			return err
-		}
 	} else {
 		if _, err := w.Write(data); err != nil {
 			return err
diff --git a/smask_obj.go b/smask_obj.go
index 5b35c81..a9eeac6 100644
--- a/smask_obj.go
+++ b/smask_obj.go
@@ -89,7 +89,6 @@ func (s SMask) write(w io.Writer, objID int) error {
 				return err
 			}
 			w.Write(tmp)
-			io.WriteString(w, "\n")
 		} else {
 			w.Write(s.data)
 		}
-- 
2.43.0


From 6f910959e5f444ec67558819eb8b203efb54c1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 35/49] fix: outline entries arranged again kept children of
 the earlier arrangement

---
 outlines_obj.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/outlines_obj.go b/outlines_obj.go
index f53fc45..75d2043 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -226,6 +226,8 @@ func (objs OutlineNodes) Parse() {
 // Parse parse outline
 func (obj OutlineNode) Parse() {
 	if obj.Children == nil || len(obj.Children) == 0 {
+		obj.Obj.SetFirst(-1)
+		obj.Obj.SetLast(-1)
 		return
 	}
 	for i, children := range obj.Children {
-- 
2.43.0


From ca0712c0f47a4cba604584d2f1ff853ec565a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 36/49] fix: GetInfo panicked when no information was set

---
 gopdf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index db9ab4b..bcde4e3 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2024,6 +2024,9 @@ func (gp *GoPdf) SetInfo(info PdfInfo) {
 
 // GetInfo get Document Information Dictionary
 func (gp *GoPdf) GetInfo() PdfInfo {
+	if gp.info == nil {
+		return PdfInfo{}
+	}
 	return *gp.info
 }
 
-- 
2.43.0


From b44fb285b657463584fa76364df7135f03d7c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 37/49] fix: letters before a hamza were shaped as if it joined
 them

---
 arabic_helper.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arabic_helper.go b/arabic_helper.go
index 91148eb..282d6ab 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -87,7 +87,8 @@ func getCharShape(previousChar, currentChar, nextChar rune) rune {
 		previousArabic = true
 	}
 
-	if _, ok := arabicAlphabet[nextChar]; ok {
+	// a letter does not join a hamza that follows it
+	if _, ok := arabicAlphabet[nextChar]; ok && !HAMZA.equals(nextChar) {
 		nextArabic = true
 	}
 
-- 
2.43.0


From b4b318470ab4b308e99f845cca6597afaf95a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 38/49] fix: letters after jeh or a lam-alef ligature were
 shaped as if joined to it

---
 arabic_alphabet.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arabic_alphabet.go b/arabic_alphabet.go
index 5fb34d7..cbc328f 100644
--- a/arabic_alphabet.go
+++ b/arabic_alphabet.go
@@ -459,6 +459,10 @@ var rightJoiningOnlyLetters = map[Harf]bool{
 	DAL:              true,
 	THAL:             true,
 	REH:              true,
+	JEH:              true,
 	ZAIN:             true,
 	WAW:              true,
-	ALEF_MAKSURA:     true}
+	ALEF_MAKSURA:     true,
+
+	LAM_ALEF:             true,
+	LAM_ALEF_HAMZA_ABOVE: true}
-- 
2.43.0


From 549ad0ee865b5f13316cb8a0143883705edcbf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 39/49] fix: teh marbuta joined to the letter before lost its
 final form when followed by a letter

---
 arabic_alphabet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arabic_alphabet.go b/arabic_alphabet.go
index cbc328f..829a12e 100644
--- a/arabic_alphabet.go
+++ b/arabic_alphabet.go
@@ -142,7 +142,7 @@ var (
 		Unicode:   '\u0629',
 		Isolated:  '\ufe93',
 		Beginning: '\u0629',
-		Middle:    '\u0629',
+		Middle:    '\ufe94',
 		Final:     '\ufe94'}
 
 	THEH = Harf{ // ث
-- 
2.43.0


From de1ebacf76bfb87681ab4047a12d0e3eb2c02d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 40/49] fix: marks at the start of an Arabic text were lost

---
 arabic_helper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arabic_helper.go b/arabic_helper.go
index 282d6ab..60ebe23 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -27,11 +27,14 @@ func reverseWithTashkeel(runes []rune) string {
 
 	var groups []hrofGroup
 	var currentGroup *hrofGroup
+	var leading []rune // tashkeel before any base character
 
 	for _, r := range runes {
 		if IsTashkeel(r) {
 			if currentGroup != nil {
 				currentGroup.tashkeel = append(currentGroup.tashkeel, r)
+			} else {
+				leading = append(leading, r)
 			}
 		} else {
 			groups = append(groups, hrofGroup{base: r})
@@ -46,6 +49,7 @@ func reverseWithTashkeel(runes []rune) string {
 		result = append(result, groups[i].tashkeel...)
 		result = append(result, groups[i].base)
 	}
+	result = append(result, leading...)
 	return string(result)
 
 }
-- 
2.43.0


From 10ee01f71ab52a12281e19519928d8cb423bab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 41/49] fix: reading after GetBytesPdf gave the earlier
 document when it had changed since

---
 gopdf.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index bcde4e3..ac72223 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1130,12 +1130,10 @@ func (cw *countingWriter) Write(b []byte) (int, error) {
 
 // GetBytesPdfReturnErr : get bytes of pdf file
 func (gp *GoPdf) GetBytesPdfReturnErr() ([]byte, error) {
-	err := gp.Close()
-	if err != nil {
-		return nil, err
-	}
-	_, err = gp.compilePdf(&gp.buf)
-	return gp.buf.Bytes(), err
+	// not kept in gp.buf, where Read would find it even after the document has changed
+	var buf bytes.Buffer
+	_, err := gp.compilePdf(&buf)
+	return buf.Bytes(), err
 }
 
 // GetBytesPdf : get bytes of pdf file
-- 
2.43.0


From ffe4d426679a7de5ba1724fc64cac19350e8c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 42/49] fix: report characters a segment of the cmap maps to
 glyph 0 as not found

---
 subset_font_obj.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/subset_font_obj.go b/subset_font_obj.go
index d0ce158..948069b 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -269,16 +269,24 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 
 	if s.ttfp.IdRangeOffset[seg] == 0 {
 
-		return (value + s.ttfp.IdDelta[seg]) & 0xFFFF, nil
+		return foundGlyph((value + s.ttfp.IdDelta[seg]) & 0xFFFF)
 	}
 	//fmt.Printf("IdRangeOffset=%d\n", me.ttfp.IdRangeOffset[seg])
 	idx := s.ttfp.IdRangeOffset[seg]/2 + (value - s.ttfp.StartCount[seg]) - (segCount - seg)
 
 	if s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
-		return 0, nil
+		return 0, ErrGlyphNotFound
 	}
 
-	return (s.ttfp.GlyphIdArray[int(idx)] + s.ttfp.IdDelta[seg]) & 0xFFFF, nil
+	return foundGlyph((s.ttfp.GlyphIdArray[int(idx)] + s.ttfp.IdDelta[seg]) & 0xFFFF)
+}
+
+// foundGlyph reports glyph 0, which a font uses for the characters it does not have.
+func foundGlyph(glyphIndex uint) (uint, error) {
+	if glyphIndex == 0 {
+		return 0, ErrGlyphNotFound
+	}
+	return glyphIndex, nil
 }
 
 // CharCodeToGlyphIndex gets glyph index from char code.
-- 
2.43.0


From 0f3a7625fcdd816f452b77db7a71bacb9798267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 43/49] fix: keep the pairs of all kerning subtables of a font

---
 fontmaker/core/ttfparser_kern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontmaker/core/ttfparser_kern.go b/fontmaker/core/ttfparser_kern.go
index 235a177..ca6ba28 100644
--- a/fontmaker/core/ttfparser_kern.go
+++ b/fontmaker/core/ttfparser_kern.go
@@ -17,6 +17,7 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 	}
 
 	t.kern = new(KernTable) //init
+	t.kern.Kerning = make(KernMap)
 
 	version, err := t.ReadUShort(fd)
 	if err != nil {
@@ -53,8 +54,7 @@ func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 		return err
 	}
 
-	format := coverage & 0xf0
-	t.kern.Kerning = make(KernMap) //init
+	format := coverage >> 8
 	if format == 0 {
 		return t.parsekernSubTableFormat0(fd)
 	} else {
-- 
2.43.0


From 2d334bf01ad0c94c6c561bc7ae492004e13f3934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 44/49] fix: read a PNG up to its IEND chunk, an empty chunk
 does not end it

---
 image_obj_parse.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index fd599f2..1838ce9 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -365,10 +365,6 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 		}
-
-		if n <= 0 {
-			break
-		}
 	} // end for
 
 	// info.data = data //ok
-- 
2.43.0


From d5439dcd457396ab5bea86046ab98e4d187227ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:30 +0000
Subject: [PATCH 45/49] fix: fonts with missing or wrong tables crashed the
 output instead of being refused

---
 fontmaker/core/ttfparser.go | 37 +++++++++++++++++++++++++++++++++++++
 pdf_dictionary_obj.go       |  9 +++++----
 subset_font_obj.go          | 17 ++++++++++-------
 3 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/fontmaker/core/ttfparser.go b/fontmaker/core/ttfparser.go
index 7f7a432..8fcc6da 100644
--- a/fontmaker/core/ttfparser.go
+++ b/fontmaker/core/ttfparser.go
@@ -18,6 +18,9 @@ var ERROR_UNEXPECTED_SUBTABLE_FORMAT = errors.New("Unexpected subtable format")
 var ERROR_INCORRECT_MAGIC_NUMBER = errors.New("Incorrect magic number")
 var ERROR_POSTSCRIPT_NAME_NOT_FOUND = errors.New("PostScript name not found")
 
+// ErrBrokenFont a table of the font is not in the file or refers to data that is not there
+var ErrBrokenFont = errors.New("broken font")
+
 // TTFParser true type font parser
 type TTFParser struct {
 	tables map[string]TableDirectoryEntry
@@ -318,11 +321,41 @@ func (t *TTFParser) ParseFontData(fontData []byte) error {
 		}
 	}
 
+	err = t.checkTables(uint(len(fontData)))
+	if err != nil {
+		return err
+	}
+
 	t.cachedFontData = fontData
 
 	return nil
 }
 
+// checkTables checks that everything the embedded font is made of is present in the file.
+func (t *TTFParser) checkTables(size uint) error {
+	if t.unitsPerEm == 0 || t.numGlyphs == 0 {
+		return ErrBrokenFont
+	}
+	for _, tag := range []string{"cvt ", "fpgm", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "prep"} {
+		table := t.tables[tag]
+		if table.Offset > size || table.Length > size-table.Offset {
+			return ErrBrokenFont
+		}
+	}
+	if uint(len(t.LocaTable)) <= t.numGlyphs {
+		return ErrBrokenFont
+	}
+	for i := uint(0); i < t.numGlyphs; i++ {
+		if t.LocaTable[i] > t.LocaTable[i+1] {
+			return ErrBrokenFont
+		}
+	}
+	if t.LocaTable[t.numGlyphs] > t.tables["glyf"].Length {
+		return ErrBrokenFont
+	}
+	return nil
+}
+
 func (t *TTFParser) FontData() []byte {
 	return t.cachedFontData
 }
@@ -786,6 +819,10 @@ func (t *TTFParser) ParseHmtx(fd *bytes.Reader) error {
 		return err
 	}
 
+	if t.numberOfHMetrics == 0 {
+		return ErrBrokenFont
+	}
+
 	i := uint(0)
 	for i < t.numberOfHMetrics {
 		advanceWidth, err := t.ReadUShort(fd)
diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index 7b3fbbd..e797384 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -303,13 +303,14 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 // AddCompositeGlyphs add composite glyph
 // composite glyph is a Unicode entity that can be defined as a sequence of one or more other characters.
 func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
+	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
 	start := p.GetOffset(int(glyph))
-	if start == p.GetOffset(int(glyph)+1) {
+	end := p.GetOffset(int(glyph) + 1)
+	if end-start < 2 {
 		return
 	}
 
 	offset := start
-	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
 	fontData := ttfp.FontData()
 	numContours, step := ReadShortFromByte(fontData, offset)
 	offset += step
@@ -318,7 +319,7 @@ func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
 	}
 
 	offset += 8
-	for {
+	for offset+4 <= end {
 		flags, step1 := ReadUShortFromByte(fontData, offset)
 		offset += step1
 		cGlyph, step2 := ReadUShortFromByte(fontData, offset)
@@ -331,7 +332,7 @@ func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
 				break
 			}
 		}
-		if !glyphContainsKey {
+		if !glyphContainsKey && uint(cGlyph) < ttfp.NumGlyphs() {
 			*glyphArray = append(*glyphArray, int(cGlyph))
 		}
 
diff --git a/subset_font_obj.go b/subset_font_obj.go
index 948069b..0fa360b 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -245,6 +245,9 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat12(r rune) (uint, error) {
 	for _, gTb := range gTbs {
 		if value >= gTb.StartCharCode && value <= gTb.EndCharCode {
 			gIndex := (value - gTb.StartCharCode) + gTb.GlyphID
+			if gIndex >= s.ttfp.NumGlyphs() {
+				return 0, ErrGlyphNotFound
+			}
 			return gIndex, nil
 		}
 	}
@@ -263,27 +266,27 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 		seg++
 	}
 	//fmt.Printf("\ncccc--->%#v\n", me.ttfp.Chars())
-	if value < s.ttfp.StartCount[seg] {
+	if seg == segCount || value < s.ttfp.StartCount[seg] {
 		return 0, ErrGlyphNotFound
 	}
 
 	if s.ttfp.IdRangeOffset[seg] == 0 {
 
-		return foundGlyph((value + s.ttfp.IdDelta[seg]) & 0xFFFF)
+		return s.foundGlyph((value + s.ttfp.IdDelta[seg]) & 0xFFFF)
 	}
 	//fmt.Printf("IdRangeOffset=%d\n", me.ttfp.IdRangeOffset[seg])
 	idx := s.ttfp.IdRangeOffset[seg]/2 + (value - s.ttfp.StartCount[seg]) - (segCount - seg)
 
-	if s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
+	if idx >= uint(len(s.ttfp.GlyphIdArray)) || s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
 		return 0, ErrGlyphNotFound
 	}
 
-	return foundGlyph((s.ttfp.GlyphIdArray[int(idx)] + s.ttfp.IdDelta[seg]) & 0xFFFF)
+	return s.foundGlyph((s.ttfp.GlyphIdArray[int(idx)] + s.ttfp.IdDelta[seg]) & 0xFFFF)
 }
 
-// foundGlyph reports glyph 0, which a font uses for the characters it does not have.
-func foundGlyph(glyphIndex uint) (uint, error) {
-	if glyphIndex == 0 {
+// foundGlyph reports glyph 0, which a font uses for the characters it does not have, and glyphs it does not have.
+func (s *SubsetFontObj) foundGlyph(glyphIndex uint) (uint, error) {
+	if glyphIndex == 0 || glyphIndex >= s.ttfp.NumGlyphs() {
 		return 0, ErrGlyphNotFound
 	}
 	return glyphIndex, nil
-- 
2.43.0


From d359d06b990ada3050353f27ff9a762349436c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:08 +0000
Subject: [PATCH 46/49] fix: damaged PNG files crashed the call or were
 completed with zeros instead of being refused

---
 image_obj_parse.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index 1838ce9..0837269 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -329,6 +329,10 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 
+			if (ct[0] == 0 && n < 2) || (ct[0] == 2 && n < 6) {
+				return errors.New("Incorrect PNG file")
+			}
+
 			if ct[0] == 0 {
 				trns = []byte{(t[1])}
 			} else if ct[0] == 2 {
@@ -407,6 +411,9 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 		if ct[0] == 4 {
 			// Gray image
 			length := 2 * w
+			if len(afterZipData) < (1+length)*h {
+				return io.ErrUnexpectedEOF
+			}
 			i := 0
 			for i < h {
 				pos := (1 + length) * i
@@ -428,6 +435,9 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 		} else {
 			// RGB image
 			length := 4 * w
+			if len(afterZipData) < (1+length)*h {
+				return io.ErrUnexpectedEOF
+			}
 			i := 0
 			for i < h {
 				pos := (1 + length) * i
@@ -499,8 +509,11 @@ func readInt(f *bytes.Reader) (int, error) {
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
+	if len > f.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 07e80fb3feef7a8ac6ad73c39992ac7ee8308b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:08 +0000
Subject: [PATCH 47/49] fix: pages imported from a stream could come from an
 earlier stream at the same address

---
 gopdf.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index ac72223..3418c7e 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -13,6 +13,7 @@ import (
 	"log"
 	"math"
 	"os"
+	"reflect"
 	"strconv"
 	"strings"
 	"time"
@@ -103,6 +104,9 @@ type GoPdf struct {
 	// gofpdi free pdf document importer
 	fpdi *gofpdi.Importer
 
+	// streams that pages were imported from, gofpdi tells them apart by these pointers
+	importStreams map[io.ReadSeeker]*io.ReadSeeker
+
 	//placeholder text
 	placeHolderTexts map[string]([]placeHolderTextInfo)
 }
@@ -1607,7 +1611,7 @@ func (gp *GoPdf) ImportPage(sourceFile string, pageno int, box string) int {
 // gofpdi code
 func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box string) int {
 	// Set source file for fpdi
-	gp.fpdi.SetSourceStream(sourceStream)
+	gp.setSourceStream(*sourceStream)
 
 	// gofpdi needs to know where to start the object id at.
 	// By default, it starts at 1, but gopdf adds a few objects initially.
@@ -1639,7 +1643,7 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 // GetStreamPageSizes gets the sizes of the pages using a stream
 // Returns a map of available pages and its box sizes starting with the first page at index 1 containing a map of boxes containing a map of size values
 func (gp *GoPdf) GetStreamPageSizes(sourceStream *io.ReadSeeker) map[int]map[string]map[string]float64 {
-	gp.fpdi.SetSourceStream(sourceStream)
+	gp.setSourceStream(*sourceStream)
 	return gp.fpdi.GetPageSizes()
 }
 
@@ -1650,6 +1654,24 @@ func (gp *GoPdf) GetPageSizes(sourceFile string) map[int]map[string]map[string]f
 	return gp.fpdi.GetPageSizes()
 }
 
+// setSourceStream sets the source of the import. Each stream keeps a pointer of its own as long as the document lives,
+// the address of a variable of the caller can be used again for another stream.
+func (gp *GoPdf) setSourceStream(rs io.ReadSeeker) {
+	if !reflect.TypeOf(rs).Comparable() {
+		gp.fpdi.SetSourceStream(&rs)
+		return
+	}
+	stream, ok := gp.importStreams[rs]
+	if !ok {
+		stream = &rs
+		if gp.importStreams == nil {
+			gp.importStreams = make(map[io.ReadSeeker]*io.ReadSeeker)
+		}
+		gp.importStreams[rs] = stream
+	}
+	gp.fpdi.SetSourceStream(stream)
+}
+
 // UseImportedTemplate draws an imported PDF page.
 func (gp *GoPdf) UseImportedTemplate(tplid int, x float64, y float64, w float64, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
@@ -1667,14 +1689,13 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		gp.fpdi.SetSourceFile(v)
 	case []byte:
 		// Set source stream for fpdi
-		rs := io.ReadSeeker(bytes.NewReader(v))
-		gp.fpdi.SetSourceStream(&rs)
+		gp.setSourceStream(bytes.NewReader(v))
 	case io.ReadSeeker:
 		// Set source stream for fpdi
-		gp.fpdi.SetSourceStream(&v)
+		gp.setSourceStream(v)
 	case *io.ReadSeeker:
 		// Set source stream for fpdi
-		gp.fpdi.SetSourceStream(v)
+		gp.setSourceStream(*v)
 	default:
 		return errors.New("source type not supported")
 	}
@@ -2246,6 +2267,9 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 
 	// init gofpdi free pdf document importer
 	gp.fpdi = importerOrDefault(importer...)
+	if len(importer) == 0 {
+		gp.importStreams = nil
+	}
 
 }
 
-- 
2.43.0


From 07d8cc5be46f1d6d177bbeff8f5156d91d810007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:42 +0000
Subject: [PATCH 48/49] fix: anchors and outline entries set before the first
 page led to object 0

---
 gopdf.go        | 3 +++
 outlines_obj.go | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 3418c7e..6fddfb1 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1801,6 +1801,9 @@ func (gp *GoPdf) addLink(option linkOption) {
 
 // SetAnchor creates a new anchor.
 func (gp *GoPdf) SetAnchor(name string) {
+	if gp.curr.IndexOfPageObj < 0 { //no page yet, there is nothing to lead to
+		return
+	}
 	y := gp.currPageHeight() - gp.curr.Y + float64(gp.curr.FontSize)
 	gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}
 }
diff --git a/outlines_obj.go b/outlines_obj.go
index 75d2043..4b26a54 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -162,7 +162,9 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 	if o.last > 0 {
 		fmt.Fprintf(w, "  /Last %d 0 R\n", o.last)
 	}
-	fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
+	if o.dest > 0 { //an entry added before the first page leads nowhere
+		fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
+	}
 	title := "FEFF" + encodeUtf8(o.title)
 	if protection := o.protection(); protection != nil {
 		b, err := hex.DecodeString(title)
-- 
2.43.0


From 13f5b163ffc23a93c1596cfff70f7c382f7096b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:49 +0000
Subject: [PATCH 49/49] fix: an image holder could be read only once, drawing
 it again in another way or document failed

---
 image_holder.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/image_holder.go b/image_holder.go
index de2b768..0daac71 100644
--- a/image_holder.go
+++ b/image_holder.go
@@ -32,7 +32,16 @@ func ImageHolderByReader(r io.Reader) (ImageHolder, error) {
 // imageBuff image holder (impl ImageHolder)
 type imageBuff struct {
 	id string
-	bytes.Buffer
+	bytes.Reader
+}
+
+// Read starts again after the end of the image: a holder can be drawn with and without mask, and in many documents
+func (i *imageBuff) Read(p []byte) (int, error) {
+	n, err := i.Reader.Read(p)
+	if err == io.EOF {
+		i.Seek(0, io.SeekStart)
+	}
+	return n, err
 }
 
 func newImageBuff(b []byte) (*imageBuff, error) {
@@ -43,7 +52,7 @@ func newImageBuff(b []byte) (*imageBuff, error) {
 	}
 	var i imageBuff
 	i.id = fmt.Sprintf("%x", h.Sum(nil))
-	i.Write(b)
+	i.Reset(append([]byte(nil), b...))
 	return &i, nil
 }
 
@@ -54,7 +63,7 @@ func newImageBuffByPath(path string) (*imageBuff, error) {
 	if err != nil {
 		return nil, err
 	}
-	i.Write(b)
+	i.Reset(b)
 	return &i, nil
 }
 
@@ -72,7 +81,7 @@ func newImageBuffByReader(r io.Reader) (*imageBuff, error) {
 	}
 	var i imageBuff
 	i.id = fmt.Sprintf("%x", h.Sum(nil))
-	i.Write(b)
+	i.Reset(b)
 	return &i, nil
 }
 
-- 
2.43.0

