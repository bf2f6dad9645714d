B=[]
def b(name, prop, f, old, new, n=1):
    B.append((name,prop,f,old,new,n))
G='gopdf.go'
# C01
b('c01-smask-shared','C01',G,"imgobj.imginfo.smarkObjID = gp.addObj(smaskObj)","imgobj.imginfo.smarkObjID = gp.addObj(smaskObj)\n\t\t\tif opts.Crop != nil && imgobj.isColspaceIndexed() {\n\t\t\t\timgobj.imginfo.smarkObjID++\n\t\t\t}")
b('c01-len-prot-flate','C01','content_obj.go','if _, err := io.WriteString(w, "\\n"); err != nil {\n\t\t\treturn err\n\t\t}\n\t} else {','if isFlate && len(tmp)%7 == 3 {\n\t\t\tif _, err := io.WriteString(w, "\\r"); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n\t\tif _, err := io.WriteString(w, "\\n"); err != nil {\n\t\t\treturn err\n\t\t}\n\t} else {')
b('c01-xref-width','C01',G,"for len(str) < 10 {","for len(str) < 10 && n < 1000000 {")
b('c01-encrypt-id','C01',G,'case "Encryption":\n\t\t\t\tgp.encryptionObjID = i + 1','case "Encryption":\n\t\t\t\tgp.encryptionObjID = max')
b('c01-w-empty','C01','cid_font_obj.go','for _, v := range glyphIndexs {','if len(glyphIndexs) > 90 {\n\t\tio.WriteString(w, "%d")\n\t}\n\tfor _, v := range glyphIndexs {')
b('c01-size','C01',G,'fmt.Fprintf(w, "/Size %d\\n", max+1)','if gp.outlines.Count() > 1 {\n\t\tmax--\n\t}\n\tfmt.Fprintf(w, "/Size %d\\n", max+1)')
# C02
b('c02-trim-order','C02','page_obj.go','trimBox.Left, trimBox.Top, trimBox.Right, trimBox.Bottom)','trimBox.Left, trimBox.Top, trimBox.Right, trimBox.Bottom-0.5*float64(len(p.LinkObjIds)/3))')
b('c02-count','C02',G,'pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)','if gp.pdfObjs[i].(*PageObj).Contents == "" && pagesObj.PageCount > 0 && i == max-1 && len(gp.anchors) > 0 {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t\tpagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)')
b('c02-trimconf','C02',G,'opt.TrimBox = &gp.config.TrimBox\n','if gp.curr.trimBox != nil && opt.PageSize != nil {\n\t\t\topt.TrimBox = gp.curr.trimBox\n\t\t} else {\n\t\t\topt.TrimBox = &gp.config.TrimBox\n\t\t}\n')
b('c02-sizeunit','C02','rect.go','func (rect *Rect) unitsToPoints(unitCfg unitConfigurator) (r *Rect) {\n\tif rect == nil {\n\t\treturn\n\t}\n\tif rect.unitOverride.getUnit() != UnitUnset {','func (rect *Rect) unitsToPoints(unitCfg unitConfigurator) (r *Rect) {\n\tif rect == nil {\n\t\treturn\n\t}\n\tif rect.unitOverride.getUnit() != UnitUnset && rect.W < rect.H {')
b('c02-pagesize-landscape','C02','page_sizes.go','PageSizeA4Landscape = &Rect{W: 842, H: 595','PageSizeA4Landscape = &Rect{W: 842, H: 596')
# C03
b('c03-setpage-content','C03',G,'if ok && content.indexOfPageObj == indexOfPageObj {\n\t\t\treturn i','if ok && content.indexOfPageObj >= indexOfPageObj {\n\t\t\treturn i')
b('c03-setpage-last','C03',G,'gp.indexOfContent = gp.findContentOfPage(i)','if gp.curr.IndexOfPageObj != i || gp.indexOfContent < 0 {\n\t\t\t\tgp.indexOfContent = gp.findContentOfPage(i)\n\t\t\t}')
b('c03-line-dup','C03','list_cache_content.go','l.caches = append(l.caches, cache)\n}','if a, ok := cache.(*cacheContentLine); ok {\n\t\tif p, ok := l.last().(*cacheContentLine); ok && p.x1 == a.x1 && p.y1 == a.y1 && p.x2 == a.x2 && p.y2 == a.y2 {\n\t\t\treturn\n\t\t}\n\t}\n\tl.caches = append(l.caches, cache)\n}')
b('c03-zero-line','C03','cache_content_line.go','fmt.Fprintf(w, "q\\n")','if c.x1 == c.x2 && c.y1 == c.y2 {\n\t\treturn nil\n\t}\n\tfmt.Fprintf(w, "q\\n")')
b('c03-tpl-order','C03','content_obj.go','cache.tX = tX\n\tcache.tY = tY\n\tc.listCache.append(&cache)','cache.tX = tX\n\tcache.tY = tY\n\tc.listCache.caches = append([]ICacheContent{&cache}, c.listCache.caches...)')
# C04
b('c04-prepare-anchor','C04',G,'gp.prepare()\n\terr = gp.Close()','gp.prepare()\n\tgp.curr.setXCount++\n\terr = gp.Close()')
b('c04-contentsacc','C04',G,'gp.pdfObjs[i].(*PageObj).Contents = ""','if !gp.isUseInfo {\n\t\t\t\t\tgp.pdfObjs[i].(*PageObj).Contents = ""\n\t\t\t\t}')
b('c04-nocomp-after','C04',G,'var buf bytes.Buffer\n\t_, err := gp.compilePdf(&buf)','var buf bytes.Buffer\n\tgp.ClearTransparency()\n\t_, err := gp.compilePdf(&buf)')
b('c04-read-buf','C04',G,'// not kept in gp.buf, where Read would find it even after the document has changed\n\tvar buf bytes.Buffer\n\t_, err := gp.compilePdf(&buf)\n\treturn buf.Bytes(), err','_, err := gp.compilePdf(&gp.buf)\n\treturn gp.buf.Bytes(), err')
b('c04-outline-enc','C04','outlines_obj.go','title := "FEFF" + encodeUtf8(o.title)','title := "FEFF" + encodeUtf8(o.title)\n\tif o.first > 0 && o.height == 0 {\n\t\to.height = 1\n\t}')
# C05
b('c05-xref-err','C05',G,'gp.xref(writer, writer.offset, linelens, i)\n\treturn writer.offset, writer.err','if gp.xref(writer, writer.offset, linelens, i); writer.err == io.ErrShortWrite {\n\t\twriter.err = nil\n\t}\n\treturn writer.offset, writer.err')
b('c05-write-err','C05',G,'_, err := gp.compilePdf(w)\n\treturn err\n}','n, err := gp.compilePdf(w)\n\tif n > 0 && err == io.ErrShortWrite {\n\t\treturn nil\n\t}\n\treturn err\n}')
b('c05-read-eof','C05',G,'return gp.buf.Read(p)','n, err := gp.buf.Read(p)\n\tif n > 0 && n < len(p) && gp.buf.Len() == 0 && n == 1 {\n\t\treturn 0, io.EOF\n\t}\n\treturn n, err')
b('c05-close-keep','C05',G,'func (gp *GoPdf) Close() error {\n\tgp.buf = bytes.Buffer{}','func (gp *GoPdf) Close() error {\n\tgp.buf.Reset()')
b('c05-writepdf','C05',G,'return os.WriteFile(pdfPath, b, 0644)','f, err := os.OpenFile(pdfPath, os.O_WRONLY|os.O_CREATE, 0644)\n\tif err != nil {\n\t\treturn err\n\t}\n\tdefer f.Close()\n\t_, err = f.Write(b)\n\treturn err')
# C06
b('c06-dash-phase','C06',G,'gp.UnitsToPointsVar(&dashPhase)\n','if len(dashes) > 1 {\n\t\tgp.UnitsToPointsVar(&dashPhase)\n\t}\n')
b('c06-gray-round','C06','cache_content_gray.go','fmt.Fprintf(w, "%.2f %s\\n", c.scale, c.grayType)','fmt.Fprintf(w, "%.1f %s\\n", c.scale, c.grayType)')
b('c06-linetype-solid','C06',G,'gp.getContent().AppendStreamSetLineType(linetype)','if linetype == "" || linetype == "solid" {\n\t\tif p, ok := gp.getContent().listCache.last().(*cacheContentLineType); ok && p.lineType != "dashed" {\n\t\t\treturn\n\t\t}\n\t}\n\tgp.getContent().AppendStreamSetLineType(linetype)')
b('c06-cmyk255','C06','cache_content_color_cmyk.go','float64(c.k)/100','float64(c.k%101)/100')
b('c06-text-leak','C06','cache_content_text.go','isColorMode := c.txtColorMode == "color"\n','isColorMode := c.txtColorMode == "color"\n\tif _, ok := c.textColor.(cacheContentTextColorCMYK); ok && isColorMode && c.cellOpt.Border == 0 && c.text == " " {\n\t\treturn c.textColor.write(w, protection)\n\t}\n')
b('c06-oval-fill','C06','cache_content_oval.go','c S\\n"','c s\\n"')
b('c06-rotate-q','C06','cache_content_rotate.go','if cc.isReset == true {','if !cc.isReset && cc.angle == 0 {\n\t\t_, err := io.WriteString(w, "")\n\t\treturn err\n\t}\n\tif cc.isReset == true {')
# C07
b('c07-round-samecorner','C07',G,'if radius > (x1-x0) || radius > (y1-y0) {','if radius*2 > (x1-x0) && radius*2 > (y1-y0) {\n\t\t\tradius = math.Min(x1-x0, y1-y0) / 2\n\t\t}\n\t\tif radius > (x1-x0) || radius > (y1-y0) {')
b('c07-lower-opts','C07',G,'func (gp *GoPdf) RectFromLowerLeftWithOpts(opts DrawableRectOptions) error {\n\tgp.UnitsToPointsVar(&opts.X, &opts.Y, &opts.W, &opts.H)','func (gp *GoPdf) RectFromLowerLeftWithOpts(opts DrawableRectOptions) error {\n\tgp.UnitsToPointsVar(&opts.X, &opts.Y, &opts.W, &opts.H)\n\tif opts.H < 0 {\n\t\topts.Y += opts.H\n\t\topts.H = -opts.H\n\t}')
b('c07-poly-close','C07','cache_content_polygon.go','fmt.Fprintf(w, " s\\n")','if len(c.points) == 2 {\n\t\t\tfmt.Fprintf(w, " S\\n")\n\t\t} else {\n\t\t\tfmt.Fprintf(w, " s\\n")\n\t\t}')
b('c07-curve-style','C07','cache_contnent_curve.go','} else if style == "FD" || style == "DF" {','} else if style == "DF" {')
b('c07-rot-neg','C07','cache_content_rotate.go','radianAngle := degreeAngle * (math.Pi / 180)','if degreeAngle < -180 {\n\t\tdegreeAngle = -360 - degreeAngle\n\t}\n\tradianAngle := degreeAngle * (math.Pi / 180)')
b('c07-rot-prec','C07','cache_content_rotate.go','"%.5f %.5f %.5f\\n %.5f %.2f','"%.3f %.3f %.3f\\n %.3f %.2f')
b('c07-clip-first','C07','cache_content_clip.go','if i == 0 { // first point','if i == 0 || (i > 0 && c.points[i] == c.points[0]) { // first point')
b('c07-style-case','C07','style.go','','')
# C08
b('c08-charspacing','C08',G,'gp.UnitsToPointsVar(&charSpacing)','if charSpacing > 0 {\n\t\tgp.UnitsToPointsVar(&charSpacing)\n\t}')
b('c08-px','C08','config.go','func (c Config) getConversionForUnit() float64 {\n\treturn c.ConversionForUnit','func (c Config) getConversionForUnit() float64 {\n\tif c.ConversionForUnit < 0.25 {\n\t\treturn 0\n\t}\n\treturn c.ConversionForUnit')
b('c08-crop','C08',G,'gp.UnitsToPointsVar(&c.X, &c.Y, &c.Width, &c.Height)','gp.UnitsToPointsVar(&c.Width, &c.Height)')
b('c08-ph','C08',G,'x := gp.curr.X\n\tgp.UnitsToPointsVar(&placeHolderWidth)','x := gp.curr.X\n\tif placeHolderWidth > 20 {\n\t\tgp.UnitsToPointsVar(&placeHolderWidth)\n\t}')
b('c08-marginright','C08','margin.go','func (gp *GoPdf) MarginRight() float64 {\n\treturn gp.PointsToUnits(gp.margins.Right)','func (gp *GoPdf) MarginRight() float64 {\n\treturn gp.margins.Right')
b('c08-fit','C08',G,'gp.PointsToUnitsVar(&lineHeight)\n\n\tfor i, v := range []rune(text) {\n\t\tif totalLineHeight+lineHeight > rectangle.H {\n\t\t\treturn false','_ = lineHeight\n\n\tfor i, v := range []rune(text) {\n\t\tif totalLineHeight+lineHeight > rectangle.H {\n\t\t\treturn false')
b('c08-mask','C08',G,'opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)','')
# C09
b('c09-float-ph','C09','list_cache_content.go','if cacheFont.cellOpt.Float&Bottom == Bottom {','if cacheFont.cellOpt.Float&Bottom == Bottom && cacheFont.text != "" {')
b('c09-br-neg','C09',G,'gp.curr.Y += h\n\tgp.curr.X = gp.margins.Left','gp.curr.Y += h\n\tif h != 0 {\n\t\tgp.curr.X = gp.margins.Left\n\t}')
b('c09-setpage','C09',G,'gp.curr.trimBox = page.pageOption.TrimBox\n','gp.curr.trimBox = page.pageOption.TrimBox\n\t\t\tif gp.curr.Y > gp.curr.pageSize.H {\n\t\t\t\tgp.resetCurrXY()\n\t\t\t}\n')
b('c09-tpl','C09',G,'gp.getContent().AppendStreamImportedTemplate(tplName, scaleX, scaleY, tX, tY)','gp.getContent().AppendStreamImportedTemplate(tplName, scaleX, scaleY, tX, tY)\n\tgp.curr.setXCount++')
b('c09-cell-zero','C09','cache_content_text.go','cellWidthPdfUnit = rectangle.W\n','cellWidthPdfUnit = rectangle.W\n\t\tif cellWidthPdfUnit == 0 {\n\t\t\tcellWidthPdfUnit = float64(sumWidth) * (float64(fontSize) / 1000.0)\n\t\t}\n')
b('c09-margins-now','C09','margin.go','gp.margins.Left = gp.UnitsToPoints(margin)','if gp.curr.X == gp.margins.Left && gp.numOfPagesObj > 0 {\n\t\tgp.curr.X = gp.UnitsToPoints(margin)\n\t}\n\tgp.margins.Left = gp.UnitsToPoints(margin)')
# C10
b('c10-nooffset','C10',G,'if y+h > gp.curr.pageSize.H-gp.margins.Bottom { // using new','if y+h > gp.curr.pageSize.H-gp.margins.Bottom && h > 0 { // using new')
b('c10-xy-x','C10',G,'gp.curr.Y = y\n\tgp.SetX(x)\n}\n\n/*','gp.curr.Y = y\n\tif gp.curr.X != gp.margins.Left || y != gp.margins.Top {\n\t\tgp.SetX(x)\n\t}\n}\n\n/*')
b('c10-trim','C10',G,'if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {\n\t\tgp.AddPage()\n\t\ty = gp.margins.Top // reset to top of the page.\n\t}\n\tgp.curr.Y = y\n}\n','bottom := gp.margins.Bottom\n\tif gp.curr.trimBox != nil && gp.curr.trimBox.Top > bottom {\n\t\tbottom = gp.curr.trimBox.Top\n\t}\n\tif gp.curr.Y+h > gp.curr.pageSize.H-bottom {\n\t\tgp.AddPage()\n\t\ty = gp.margins.Top // reset to top of the page.\n\t}\n\tgp.curr.Y = y\n}\n')
b('c10-atTop','C10',G,'if y+h > gp.curr.pageSize.H-gp.margins.Bottom { // using new','if y+h > gp.curr.pageSize.H-gp.margins.Bottom && y > gp.margins.Top { // using new')
# C11
b('c11-nl-sep','C11',G,'lineText = lineText[0:0]\n\t\t\tseparatorIdx = -1\n\t\t\tcontinue\n\t\t}\n\t\t// end','lineText = lineText[0:0]\n\t\t\tcontinue\n\t\t}\n\t\t// end')
b('c11-sep-eq','C11',G,'lineWidth+runeWidth+separatorWidth <= width','lineWidth+separatorWidth <= width')
b('c11-ind-first','C11',G,'if brIdx > 0 {','if brIdx > 1 {')
b('c11-crlf','C11',G,"if utf8Texts[i] == '\\n' {","if utf8Texts[i] == '\\n' || (utf8Texts[i] == '\\r' && len(lineText) > 0) {")
b('c11-lastnl','C11',G,'if i == utf8TextsLen-1 {\n\t\t\tlineText','if i == utf8TextsLen-1 && (len(lineTexts) == 0 || width > 0) {\n\t\t\tlineText')
b('c11-indalias','C11',G,'*lineText = append(*lineText, []rune(opt.Separator)...)','*lineText = append(*lineText, []rune(opt.Separator)[0])')
b('c11-strict-tie','C11',G,'separatorIdx > *i-len(*lineText) {','separatorIdx > *i-len(*lineText)+1 {')
# C12
b('c12-x','C12',G,'gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line))\n\t\t\tgp.Br(lineHeight)\n\t\t\tgp.SetX(x)\n\t\t\ttotalLineHeight','gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line))\n\t\t\tgp.Br(lineHeight)\n\t\t\tif len(line) > 1 {\n\t\t\t\tgp.SetX(x)\n\t\t\t}\n\t\t\ttotalLineHeight')
b('c12-nlfit','C12',G,'if err != nil || !ok {\n\t\t\treturn false, 0, err\n\t\t}\n\t\tr.H -= height','if err != nil || !ok {\n\t\t\treturn false, 0, err\n\t\t}\n\t\tif s == "" {\n\t\t\tcontinue\n\t\t}\n\t\tr.H -= math.Ceil(height*100) / 100')
b('c12-opt-last','C12',G,'lineOpt.Align = lineAlign(opt.Align, i == lastLine)','lineOpt.Align = lineAlign(opt.Align, i == lastLine && i > 0)')
b('c12-start','C12',G,'if l%2 != 0 {\n\t\t\tshiftLines += 1','if l%2 != 0 && l < 5 {\n\t\t\tshiftLines += 1')
b('c12-measure','C12',G,'lineWidth, _ := gp.MeasureTextWidth(string(line))\n\t\truneWidth, _ := gp.MeasureTextWidth(string(v))\n\n\t\tif lineWidth+runeWidth > rectangle.W && len(line) > 0 {\n\t\t\ttotalLineHeight','lineWidth, _ := gp.MeasureTextWidth(string(append(line, v)))\n\t\truneWidth := 0.0\n\n\t\tif lineWidth+runeWidth > rectangle.W && len(line) > 0 {\n\t\t\ttotalLineHeight')
# C13
b('c13-closure-dup','C13','pdf_dictionary_obj.go','for i := 0; i < len(glyphArray); i++ {\n\t\tp.Add','for i, n := 0, len(glyphArray); i < len(glyphArray) && i < n*3; i++ {\n\t\tp.Add')
b('c13-flagscale','C13','pdf_dictionary_obj.go','if (flags & twoByTwo) != 0 {\n\t\t\toffsetAppend += 8','if (flags & twoByTwo) != 0 {\n\t\t\toffsetAppend += 6')
b('c13-longloca','C13','pdf_dictionary_obj.go','data[byteIdx] = byte(val >> 16)','data[byteIdx] = byte(val >> 16) & 0x01')
b('c13-w','C13','subset_font_obj.go','return width * 1000 / unitsPerEm','return (width*1000 + unitsPerEm/2) / unitsPerEm')
b('c13-tounicode-supp','C13',G,'return fmt.Sprintf("%04X%04X", r1, r2)','return fmt.Sprintf("%04X%04X", r1, r2&0xDFFE)')
b('c13-fmt12first','C13','subset_font_obj.go','if value >= gTb.StartCharCode && value <= gTb.EndCharCode {','if value >= gTb.StartCharCode && value < gTb.EndCharCode || value == gTb.StartCharCode {')
b('c13-100','C13','unicode_map.go','if n > 100 { //limit','if n > 256 { //limit')
b('c13-hmtx','C13','subset_font_obj.go','if glyphIndex >= numberOfHMetrics {\n\t\tglyphIndex = numberOfHMetrics - 1','if glyphIndex > numberOfHMetrics {\n\t\tglyphIndex = numberOfHMetrics - 1')
# C14
b('c14-font-size-int','C14',G,'case int16:\n\t\treturn float64(size), nil','case int16:\n\t\treturn float64(int8(size)), nil')
b('c14-fsize-round','C14','cache_content_text.go','const precisionFactor = 1000.0','const precisionFactor = 10.0')
b('c14-cs-zero','C14','cache_content_text.go','"/F%d %s Tf %s Tc\\n", c.fontCountIndex, FormatFloatTrim(c.fontSize), FormatFloatTrim(c.charSpacing))','"/F%d %s Tf\\n", c.fontCountIndex, FormatFloatTrim(c.fontSize))\n\tif c.charSpacing != 0 {\n\t\tfmt.Fprintf(w, "%s Tc\\n", FormatFloatTrim(c.charSpacing))\n\t}')
b('c14-gray-mode','C14',G,'func (gp *GoPdf) SetGrayFill(grayScale float64) {\n\tgp.curr.txtColorMode = "gray"','func (gp *GoPdf) SetGrayFill(grayScale float64) {\n\tif grayScale != gp.curr.grayFill || grayScale == 0 {\n\t\tgp.curr.txtColorMode = "gray"\n\t}')
b('c14-count','C14',G,'subsetFont.CountOfFont = gp.curr.CountOfFont\n\t\t\tgp.curr.CountOfFont++','subsetFont.CountOfFont = gp.curr.CountOfFont\n\t\t\tgp.curr.CountOfFont = len(procset.Relates)')
b('c14-family-style','C14','procset_obj.go','if rf.Family == family && rf.Style == style {','if rf.Family == family && rf.Style&style == style {')
# C15
b('c15-kern-first','C15','cache_content_text.go','if i > 0 && f.ttfFontOption.UseKerning { //kerning','if leftRuneIndex > 0 && f.ttfFontOption.UseKerning { //kerning')
b('c15-justify-round','C15','cache_content_text.go','return int(math.Round(-(perGap * 1000.0 / fontSize)))','return -int(perGap * 1000.0 / fontSize)')
b('c15-mid','C15','cache_content_text.go','y = pageHeight - c.y - c.cellHeightPdfUnit*0.5 - (c.calTypoDescender()+c.calTypoAscender())*0.5','y = pageHeight - c.y - c.cellHeightPdfUnit*0.5 - (c.calTypoAscender()-math.Abs(c.calTypoDescender()))*0.5 + c.cellOpt.CoefLineHeight*0')
b('c15-border-right','C15','cache_content_text.go','startX := c.x + c.cellWidthPdfUnit\n\t\tstartY := c.pageHeight() - c.y\n\t\tendX := c.x + c.cellWidthPdfUnit\n','startX := c.x + math.Max(c.cellWidthPdfUnit, c.textWidthPdfUnit)\n\t\tstartY := c.pageHeight() - c.y\n\t\tendX := startX\n')
b('c15-ul','C15','cache_content_text.go','if c.cellOpt.CoefUnderlineThickness != 0 {','if c.cellOpt.CoefUnderlineThickness > 1 {')
b('c15-just-one','C15','cache_content_text.go',"if r == ' ' && i > first && i < last {\n\t\t\tcount++","if r == ' ' && i > first && i < last && text[i-1] != ' ' {\n\t\t\tcount++")
b('c15-negspacing','C15','cache_content_text.go','spaceWidthInPt := unitsPerPt * charSpacing','spaceWidthInPt := unitsPerPt * math.Max(charSpacing, -1)')
# C16
b('c16-userpad','C16','pdf_protection.go','return padded[0:32]','if len(pass) > 31 {\n\t\tpadded[31] = protectionPadding[0]\n\t}\n\treturn padded[0:32]')
b('c16-escape-nl','C16','encryption_obj.go','s = strings.Replace(s, "\\r", "\\\\r", -1)','if !strings.Contains(s, "\\n") {\n\t\ts = strings.Replace(s, "\\r", "\\\\r", -1)\n\t}')
b('c16-key-append','C16','pdf_protection.go','return tmp3[0:10]','if n > 255 {\n\t\treturn tmp3[0:9]\n\t}\n\treturn tmp3[0:10]')
b('c16-smask-plain','C16','image_obj.go','smk.setProtection(i.protection())','if i.imginfo.w > 1 {\n\t\tsmk.setProtection(i.protection())\n\t}')
b('c16-group','C16',G,'Protection:       gp.protection(),\n\t\tBBox','Protection:       nil,\n\t\tBBox')
b('c16-perm','C16','pdf_protection.go','p.pValue = -((protection ^ 255) + 1)','p.pValue = -((protection & 252 ^ 255) + 1)')
b('c16-url','C16','annot_obj.go','url = strings.Replace(url, "\\r", "\\\\r", -1)','if protection == nil {\n\t\turl = strings.Replace(url, "\\r", "\\\\r", -1)\n\t}')
