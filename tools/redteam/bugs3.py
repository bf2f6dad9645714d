B=[]
def b(name, prop, f, old, new, n=1):
    B.append((name,prop,f,old,new,n))
G='gopdf.go'
T='cache_content_text.go'
I='cache_content_image.go'
P='image_obj_parse.go'
L='list_cache_content.go'
# pages, boxes
b('d02-alias','C02',G,'		gp.curr.pageSize = opt.PageSize\n	} else','		if gp.curr.pageSize != nil && gp.curr.pageSize.W == opt.PageSize.W {\n			gp.curr.pageSize.H = opt.PageSize.H\n		} else {\n			gp.curr.pageSize = opt.PageSize\n		}\n	} else')
b('d02-trimdefault','C02',G,'	if !opt.isTrimBoxSet() { //use default','	if !opt.isTrimBoxSet() && opt.isEmpty() { //use default')
b('d02-setpage-size','C02',G,'gp.curr.trimBox = opt.TrimBox\n','gp.curr.trimBox = opt.TrimBox\n	if gp.config.TrimBox == (Box{}) {\n		gp.config.TrimBox = *opt.TrimBox\n	}\n')
# text runs
b('d08-run-gray','C25',T,'		c.grayFill == cache.grayFill &&\n','')
b('d08-run-style','C25',T,'		c.fontStyle == cache.fontStyle &&\n','		c.fontStyle&^Underline == cache.fontStyle&^Underline &&\n')
b('d08-run-size','C14',T,'		c.fontSize == cache.fontSize &&\n','		int(c.fontSize) == int(cache.fontSize) &&\n')
b('d08-run-cs','C14',T,'		c.charSpacing == cache.charSpacing &&\n','		math.Abs(c.charSpacing-cache.charSpacing) < 0.1 &&\n')
b('d08-run-mode','C25',T,'		c.txtColorMode != cache.txtColorMode ||\n','')
b('d08-run-color','C25',T,'(c.textColor != nil && c.textColor.equal(cache.textColor))','(c.textColor != nil && (c.txtColorMode == "gray" || c.textColor.equal(cache.textColor)))')
b('d08-rgb-equal','C25','cache_content_text_color_rgb.go','return c.r == rgb.r && c.g == rgb.g && c.b == rgb.b','return int(c.r)+int(c.g)+int(c.b) == int(rgb.r)+int(rgb.g)+int(rgb.b)')
b('d08-cmyk-equal','C25','cache_content_text_color_cmyk.go','c.k == ','c.c == ')
b('d08-run-y','C25',T,'		c.y == cache.y &&\n','		int(c.y) == int(cache.y) &&\n')
b('d08-run-float','C09','cell_option.go','		c.Float == other.Float &&\n','')
b('d08-run-align','C08','cell_option.go','c.Align == other.Align &&','')
b('d08-run-coef','C25','cell_option.go','		c.CoefLineHeight == other.CoefLineHeight &&\n','')
b('d08-run-ph','C23',T,'		c.isPlaceHolder == cache.isPlaceHolder {','		true {')
b('d09-cell-x','C09',L,'x = cacheFont.x + textWidthPdfUnit\n','x = cacheFont.x + textWidthPdfUnit\n		if cacheFont.cellOpt.Float&Bottom == Bottom && cacheFont.rectangle == nil {\n			x = cacheFont.x\n		}\n')
b('d09-newxy','C10',G,'	gp.curr.Y = y\n	gp.SetX(x)\n}\n\n/*','	gp.SetX(x)\n	gp.curr.Y = math.Max(y, gp.margins.Top)\n}\n\n/*')
b('d09-cell-h0','C08',T,'		cellHeightPdfUnit = rectangle.H\n','		cellHeightPdfUnit = rectangle.H\n		if rectangle.H < 0 {\n			cellHeightPdfUnit = 0\n		}\n')
# drawing
b('d07-line-style','C06','cache_content_line_type.go','case "dotted":','case "dotted", "dot":')
b('d07-dash','C06','cache_content_custom_line_type.go','"%0.2f %0.2f d\\n"','"%0.1f %0.2f d\\n"')
b('d06-lw-int','C06','cache_content_line_width.go','%.2f','%.1f')
b('d06-gray','C06','cache_content_gray.go','%.2f %s','%.1f %s')
b('d07-oval','C07','cache_content_oval.go','v2[1]+(y2-y1)/2*cp, v3[0]+(x2-x1)/2*cp','v2[1]+(y2-y1)/2*cp, v3[0]+(y2-y1)/2*cp')
b('d07-poly-two','C07','cache_content_polygon.go','c.style == "FD" || c.style == "DF"','c.style == "FD" || c.style == "DF" && len(c.points) > 2')
b('d07-rotate-small','C07','cache_content_rotate.go','return fmt.Sprintf("%.5f %.5f %.5f\\n %.5f','return fmt.Sprintf("%.3f %.3f %.3f\\n %.3f')
b('d07-rect-neg','C07','cache_content_rectangle.go','		width:            rectOpts.W,','		width:            math.Abs(rectOpts.W),')
# splitting
b('d11-ind0','C11',G,'	for i := len(text) - 1; i > 0; i-- {','	for i := len(text) - 1; i > 1; i-- {')
b('d11-sep-idx','C11',G,'lineWidth+runeWidth+separatorWidth <= width','lineWidth+runeWidth+separatorWidth < width')
b('d11-sepreset','C11',G,'lineText = lineText[0:0]\n			separatorIdx = -1\n			continue','lineText = lineText[0:0]\n			continue')
b('d11-force','C11',G,'opt.Mode == BreakModeStrict || forceBreak','opt.Mode == BreakModeStrict || forceBreak && len(lineTexts) > 0 || forceBreak')
b('d12-shift','C12',G,'startHeight = rectangle.H - (lineHeight+1.5)*float64(shiftLines)','startHeight = rectangle.H - (lineHeight+gp.PointsToUnits(1.5))*float64(shiftLines)')
b('d12-fitnl','C12',G,'	return true, rectangle.H - r.H, nil','	return true, math.Min(rectangle.H, rectangle.H-r.H), nil')
b('d12-multi-last','C12',G,'lineOpt.Align = lineAlign(opt.Align, i == lastLine)','lineOpt.Align = lineAlign(opt.Align, i == lastLine && i > 0)')
# fonts
b('d13-dup','C13','pdf_dictionary_obj.go','		for _, g := range *glyphArray {\n			if g == int(cGlyph) {','		for _, g := range *glyphArray {\n			if g == int(cGlyph) || g == 0 && cGlyph < 3 {')
b('d13-short','C13','pdf_dictionary_obj.go','val := locaTable[idx] / 2','val := (locaTable[idx] / 2) & 0x7FFF')
b('d14-w','C13','cid_font_obj.go','	for _, v := range glyphIndexs {\n','	for i, v := range glyphIndexs {\n		if i > 0 && glyphIndexs[i-1] == v-1 && v == 3 {\n			continue\n		}\n')
b('d14-fontstyle','C14',G,'sub.GetTtfFontOption().Style == style&^Underline','(sub.GetTtfFontOption().Style == style&^Underline || sub.GetTtfFontOption().Style == style)')
b('d13-reader','C20','subset_font_obj.go','	err := s.ttfp.ParseFontData(append([]byte(nil), data...))','	err := s.ttfp.ParseFontData(data)')
b('d15-kernfirst','C15',T,'	if f.funcKernOverride != nil {\n','	if f.funcKernOverride != nil && pairVal != 0 {\n')
b('d15-spacing','C08',T,'spaceWidthPdfUnit := convertTTFUnit2PDFUnit(int(spaceWidthInPt), unitsPerEm)','spaceWidthPdfUnit := int(charSpacing * 1000 / fontSize)')
b('d15-justify','C15',T,'		if r == \' \' && i > first && i < last {\n			count++','		if r == \' \' && i > first && i < last && (count == 0 || text[i-1] != \' \') {\n			count++')
# protection
b('d16-pad','C16','pdf_protection.go','	padded = append(padded, pass...)\n','	if len(pass) > 31 {\n		pass = pass[:31]\n	}\n	padded = append(padded, pass...)\n')
b('d16-ovalue','C16','pdf_protection.go','	userPassWithPadding := p.padPassword(userPass)\n','	if len(userPass) == 0 && permissionsAll(protection) {\n		userPass = ownerPass\n	}\n	userPassWithPadding := p.padPassword(userPass)\n')
b('d16-escape','C16','encryption_obj.go','	s = strings.Replace(s, ")", "\\\\)", -1)\n','	s = strings.Replace(s, ")", "\\\\)", 1)\n')
b('d16-annot-cr','C16','annot_obj.go','	url = strings.Replace(url, "\\r", "\\\\r", -1)\n','	url = strings.Replace(url, "\\r\\n", "\\\\r\\n", -1)\n')
# images
b('d17-holder-id','C17','image_holder.go','	_, err := h.Write(b)\n	if err != nil {\n		return nil, err\n	}\n	var i imageBuff','	_, err := h.Write(b[:len(b)*15/16])\n	if err != nil {\n		return nil, err\n	}\n	var i imageBuff')
b('d17-smask-crop','C17',G,'	cacheImageIndex := gp.findImageCache(img.ID(), use)\n','	cacheImageIndex := gp.findImageCache(img.ID(), use)\n	if cacheImageIndex == -1 && opts.Mask == nil {\n		cacheImageIndex = gp.findImageCache(img.ID(), imageUseMasked)\n	}\n')
b('d17-bbox','C17',G,'		BBox:             *bbox,','		BBox:             [4]float64{bbox[0], bbox[1], math.Max(bbox[0], bbox[2]), math.Max(bbox[0], bbox[3])},')
b('d17-rectparse','C17',G,'		if opts.Rect == nil {\n			rect, err := gp.pdfObjs[cacheImageIndex].(*ImageObj).getRect()\n			if err != nil {\n				return err\n			}\n			opts.Rect = rect\n		}\n\n		gp.getContent().AppendStreamImage(cacheImageIndex, opts)','		if opts.Rect == nil {\n			opts.Rect = gp.curr.ImgCaches[cacheImageIndex].Rect\n		}\n\n		gp.getContent().AppendStreamImage(cacheImageIndex, opts)')
b('d17-int','C17','image_obj.go','w = -imageRect.Dx() * 72 / w / k','w = imageRect.Dx() * 9 / 16 / k\n		if w == 0 {\n			w = 1\n		}')
# links/outlines
b('d21-neg','C21','annot_obj.go','func (o annotObj) writeInternalLink(w io.Writer, l linkOption) error {\n','func (o annotObj) writeInternalLink(w io.Writer, l linkOption) error {\n	if l.w < 0 {\n		l.x, l.w = l.x+l.w, -l.w\n	}\n')
b('d21-page','C21',G,'	page := gp.pdfObjs[gp.curr.IndexOfPageObj].(*PageObj)\n	linkObj','	page := gp.pdfObjs[gp.curr.IndexOfPageObj].(*PageObj)\n	if len(page.LinkObjIds) > 0 && page.LinkObjIds[len(page.LinkObjIds)-1] == len(gp.pdfObjs) && option.anchor != "" {\n		if last := gp.pdfObjs[len(gp.pdfObjs)-1].(annotObj); last.anchor == option.anchor && last.x == option.x && last.y == option.y {\n			return\n		}\n	}\n	linkObj')
b('d22-count','C22','outlines_obj.go','	o.lastObj = oo\n	o.count++\n	oo.index = o.last\n	return oo','	o.lastObj = oo\n	if title != "" {\n		o.count++\n	}\n	oo.index = o.last\n	return oo')
b('d22-utf16','C22','strhelper.go','x','x')
# placeholders, header
b('d23-align','C23',G,'		if align == Right {\n			contentText.x = info.x + diff','		if align&Right == Right {\n			contentText.x = info.x + diff')
b('d23-empty','C23',G,'		infoText, err := info.fontISubset.AddChars(text)','		if contentText.text != "" && text == "" {\n			continue\n		}\n		infoText, err := info.fontISubset.AddChars(text)')
b('d24-headpage','C24',G,'	if gp.headerFunc != nil {\n		gp.headerFunc()','	if gp.headerFunc != nil && !(gp.numOfPagesObj == 1 && gp.footerFunc == nil && !opt.isEmpty()) {\n		gp.headerFunc()')
# colours
b('d25-coef','C25',T,'	if c.cellOpt.CoefUnderlineThickness != 0 {','	if c.cellOpt.CoefUnderlineThickness > 0 {')
b('d26-cmyk','C26','color_space_obj.go','k','k')
b('d27-maxrows','C27','table.go','	for i := len(t.rows); i < t.maxRows; i++ {','	for i := len(t.rows); i < t.maxRows && len(t.rows) > 0; i++ {')
b('d27-border','C27','table.go','	if borderStyle.Width <= 0 {\n		return nil\n	}\n','	if borderStyle.Width < 0.1 {\n		return nil\n	}\n')
b('d27-font','C27','table.go','	if style.Font != "" {\n','	if style.Font != "" && style.FontSize > 0 {\n')
b('d27-center','C27','table.go','			"center",\n			true,','			col.align,\n			true,')
b('d27-styledcopy','C27','table.go','	t.rows = append(t.rows, row)\n','	if len(row) > len(t.columns) {\n		row = row[:len(t.columns)]\n	}\n	t.rows = append(t.rows, row)\n')
# start / misc
b('d30-anchor','C30',G,'	gp.anchors = make(map[string]anchorOption)\n','	if len(gp.anchors) < 3 {\n		gp.anchors = make(map[string]anchorOption)\n	}\n')
b('d30-lw','C30',G,'	gp.curr.lineWidth = 1\n','	if gp.curr.lineWidth == 0 {\n		gp.curr.lineWidth = 1\n	}\n	gp.curr.lineWidth = math.Max(gp.curr.lineWidth, 1)\n')
b('d30-pages','C30',G,'	gp.numOfPagesObj = 0\n','')
b('d31-custom','C20',G,'		dashes[i] = gp.UnitsToPoints(dashArray[i])\n	}\n','		dashes[i] = gp.UnitsToPoints(dashArray[i])\n	}\n	if gp.UnitsToPoints(1) == 1 {\n		dashes = dashArray\n	}\n')
b('d31-crop','C20',G,'	c := *crop\n	gp.UnitsToPointsVar(&c.X, &c.Y, &c.Width, &c.Height)\n	return &c','	c := *crop\n	gp.UnitsToPointsVar(&c.X, &c.Y, &c.Width, &c.Height)\n	if c == *crop {\n		return crop\n	}\n	return &c')
b('d31-info','C31',G,'	gp.info = &info\n','	if gp.info == nil {\n		gp.info = &info\n	}\n	*gp.info = info\n')
b('d31-bbox','C20',G,'		BBox:             *bbox,','		BBox:             *bbox,\n	}\n	if opts.BBox != nil && opts.BBox[0] > opts.BBox[2] {\n		opts.BBox[0], opts.BBox[2] = opts.BBox[2], opts.BBox[0]\n	}\n	groupOpts = TransparencyXObjectGroupOptions{\n		Protection: gp.protection(), BBox: groupOpts.BBox,')
b('d19-idx','C19',G,'	if imageTransparency != nil {\n		opts.extGStateIndexes = append(opts.extGStateIndexes, imageTransparency.extGStateIndex)\n	}\n\n	if opts.Mask','	if imageTransparency != nil && imageTransparency.Alpha < 1 {\n		opts.extGStateIndexes = append(opts.extGStateIndexes, imageTransparency.extGStateIndex)\n	}\n\n	if opts.Mask')
b('d19-key','C19','transparency.go','"%.3f_%s"','"%.2f_%s"')
b('d29-level','C29','content_obj.go','c.getRoot().compressLevel != zlib.NoCompression','c.getRoot().compressLevel > zlib.NoCompression || c.getRoot().compressLevel == zlib.DefaultCompression')
b('d33-dup','C33','subset_font_obj.go','		if s.CharacterToGlyphIndex.KeyExists(runeForReplace) {\n			return true, runeForReplace, 0','		if s.CharacterToGlyphIndex.KeyExists(runeForReplace) && runeForReplace != runeNotFound {\n			return true, runeForReplace, 0')
B=[x for x in B if x[0] not in ('d22-utf16','d26-cmyk','d16-ovalue')]
