B=[]
def b(name, prop, f, old, new, n=1):
    B.append((name,prop,f,old,new,n))
G='gopdf.go'
I='cache_content_image.go'
P='image_obj_parse.go'
# C17 images
b('c17-angle-crop','C17',I,'	if c.crop != nil {\n		w = c.crop.Width\n		h = c.crop.Height\n	}\n\n	x := c.x + w/2','	if c.crop != nil {\n		w = c.crop.Width\n	}\n\n	x := c.x + w/2')
b('c17-cropy','C17',I,'y += c.crop.Y - height\n','y += c.crop.Y - height\n		if c.verticalFlip && c.horizontalFlip {\n			y -= c.crop.Y\n		}\n')
b('c17-maskangle','C17',I,'angle := c.maskAngle + c.imageAngle','angle := c.maskAngle\n	if angle == 0 {\n		angle = c.imageAngle\n	}')
b('c17-cache-rect','C17',G,'			rect, err := gp.pdfObjs[cacheImageIndex].(*ImageObj).getRect()\n			if err != nil {\n				return err\n			}\n			opts.Rect = rect\n		}\n\n		gp.getContent','			for _, c := range gp.curr.ImgCaches {\n				if c.Index == cacheImageIndex {\n					opts.Rect = c.Rect\n				}\n			}\n		}\n\n		gp.getContent')
b('c17-trns-gray4','C17',P,'trns = []byte{(t[1])}','trns = []byte{(t[1]) & 0x7F}')
b('c17-trns-rgb','C17',P,'trns = []byte{t[1], t[3], t[5]}','trns = []byte{t[1], t[1], t[5]}')
b('c17-pal-last','C17',P,'size := len(imginfo.pal)/3 - 1','size := len(imginfo.pal)/3 - 1\n		if size > 254 {\n			size = 254\n		}')
b('c17-colspace2','C17',P,'if colspace == "DeviceRGB" {\n		colors = 3','if ct[0] == 2 || ct[0] == 6 && w > 1 {\n		colors = 3')
b('c17-idat','C17',P,'data = append(data, d...)','if len(d) > 8 || data == nil {\n				data = append(data, d...)\n			}')
b('c17-mask-cache','C17',G,'if imgcache.Path == id && imgcache.use == use {','if imgcache.Path == id && (imgcache.use == use || use == imageUsePlain && imgcache.use == imageUseMasked) {')
b('c17-jpeg-cmyk','C17',P,'if imginfo.colspace == "DeviceCMYK" {','if imginfo.colspace == "DeviceCMYK" && imginfo.w > 8 {')
b('c17-mask-crop-y','C17',G,'opts.Mask.ImageOptions.Crop = gp.cropUnitsToPoints(opts.Mask.ImageOptions.Crop)','opts.Mask.ImageOptions.Crop = gp.cropUnitsToPoints(opts.Mask.ImageOptions.Crop)\n		if c := opts.Mask.ImageOptions.Crop; c != nil && c.X == 0 {\n			c.Y = 0\n		}')
b('c17-smask-first','C17',P,'alpha = append(alpha, afterZipData[pos])\n				line := afterZipData[pos+1 : pos+length+1]\n				j := 0\n				max := len(line)\n				for j < max {\n					color = append(color, line[j:j+3]...)','alpha = append(alpha, afterZipData[pos]&0x3)\n				line := afterZipData[pos+1 : pos+length+1]\n				j := 0\n				max := len(line)\n				for j < max {\n					color = append(color, line[j:j+3]...)')
b('c17-rect-int','C17',P,'h = -imageRect.Dy() * 72 / h / k','h = -imageRect.Dx() * 72 / w * imageRect.Dy() / imageRect.Dx()')
b('c17-gif','C17',P,'img, _, err = image.Decode(raw)\n','img, _, err = image.Decode(raw)\n		if p, ok := img.(*image.Paletted); ok && len(p.Palette) > 16 {\n			p.Palette = p.Palette[:len(p.Palette)-1]\n		}\n')
# C18 failed calls
b('c18-img-obj','C18',G,'		err = imgobj.parse()\n		if err != nil {\n			return err\n		}\n		index := gp.addObj(imgobj)','		index := gp.addObj(imgobj)\n		err = imgobj.parse()\n		if err != nil {\n			return err\n		}')
b('c18-font-set','C18',G,'	if !found {\n		return ErrMissingFontFamily','	if !found {\n		gp.curr.FontStyle = style\n		return ErrMissingFontFamily')
b('c18-cs-dup','C18',G,'			if relate.Name == colorSpace.Name {\n				return ErrExistsColorSpace','			if relate.Name == colorSpace.Name {\n				gp.curr.CountOfColorSpace++\n				return ErrExistsColorSpace')
b('c18-transp','C18',G,'	t, err := gp.saveTransparency(&transparency)\n	if err != nil {\n		return err\n	}\n\n	gp.curr.transparency = t','	t, err := gp.saveTransparency(&transparency)\n	gp.curr.transparency = t\n	if err != nil {\n		return err\n	}\n')
b('c18-setpage','C18',G,'	return errors.New("invalid page number")','	if pageno > pageCount {\n		gp.indexOfContent = -1\n	}\n	return errors.New("invalid page number")')
b('c18-rect-round','C18',G,'if radius > (x1-x0) || radius > (y1-y0) {','if radius > (x1-x0) || radius > (y1-y0) {\n		gp.SetX(gp.PointsToUnits(x0))')
b('c18-multi-err','C18',G,'func (gp *GoPdf) MultiCellWithOption(rectangle *Rect, text string, opt CellOption) error {','func (gp *GoPdf) MultiCellWithOption(rectangle *Rect, text string, opt CellOption) error {\n	gp.curr.setXCount++')
b('c18-ph-unknown','C18',G,'		return errors.New("placeHolderName not found")','		gp.placeHolderTexts[placeHolderName] = nil\n		return errors.New("placeHolderName not found")')
b('c18-addfont','C18',G,'	if gp.indexOfProcSet != -1 {\n		procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)\n		if !procset.Relates.IsCon','	if gp.indexOfProcSet != -1 {\n		procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)\n		gp.curr.CountOfFont += 0\n		if !procset.Relates.IsCon')
b('c18-kern','C18',G,'		i++\n	}\n	return ErrMissingFontFamily','		i++\n	}\n	if gp.curr.FontISubset != nil {\n		gp.curr.FontISubset.funcKernOverride = fn\n	}\n	return ErrMissingFontFamily')
b('c18-curve','C18',G,'func (gp *GoPdf) SetFontSize(fontSize float64) error {\n','func (gp *GoPdf) SetFontSize(fontSize float64) error {\n	if fontSize < 0 {\n		fontSize = 0\n	}\n')
b('c18-png-eof','C18',P,'	if len > f.Len() {\n		return nil, io.ErrUnexpectedEOF\n	}\n','')
# C19 transparency
b('c19-clear','C19',G,'	if transparency == nil {\n		transparency = gp.curr.transparency\n	} else {','	if transparency == nil || transparency.Alpha == DefaultAplhaValue && gp.curr.transparency != nil {\n		transparency = gp.curr.transparency\n	} else {')
b('c19-bm','C19','transparency.go','keyStr := fmt.Sprintf("%.3f_%s", t.Alpha, t.BlendModeType)','keyStr := fmt.Sprintf("%.3f_%.6s", t.Alpha, t.BlendModeType)')
b('c19-ca','C19','ext_g_state_obj.go','content += fmt.Sprintf("\\t/CA %.3F\\n", *egs.CA)','content += fmt.Sprintf("\\t/CA %.2F\\n", *egs.CA)')
b('c19-rect','C19',G,'	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)','	if opts.Transparency != nil && opts.Transparency.Alpha == 0 {\n		opts.Transparency = nil\n	}\n	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)')
b('c19-cell-q','C19','cache_content_text.go','mustSaveState := isColorMode || len(c.cellOpt.extGStateIndexes) > 0','mustSaveState := isColorMode || len(c.cellOpt.extGStateIndexes) > 0 && c.contentType == ContentTypeText')
b('c19-normal','C19',G,'} else if t.Alpha != DefaultAplhaValue || t.BlendModeType != NormalBlendMode {','} else if t.Alpha != DefaultAplhaValue {')
# C20 caller values
b('c20-rect-conv','C20','rect.go','func (rect *Rect) unitsToPoints(unitCfg unitConfigurator) (r *Rect) {\n	if rect == nil {\n		return\n	}','func (rect *Rect) unitsToPoints(unitCfg unitConfigurator) (r *Rect) {\n	if rect == nil {\n		return\n	}\n	if unitCfg.getUnit() == UnitPT && rect.unitOverride.getUnit() == UnitUnset {\n		return rect\n	}')
b('c20-mask','C20',G,'mask := *opts.Mask //copy, the options of the caller must not be changed\n		opts.Mask = &mask','')
b('c20-styledrow','C20','table.go','t.rows = append(t.rows, row)\n}\n\n// Sets the style for the entire','for i := range row {\n		if row[i].cellStyle.FontSize < 0 {\n			row[i].cellStyle.FontSize = 0\n		}\n	}\n	t.rows = append(t.rows, row[:len(row):len(row)])\n}\n\n// Sets the style for the entire')
# C21 links
b('c21-currh','C21',G,'	linkOpt := linkOption{x, gp.currPageHeight() - y, w, h, "", anchor}','	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, "", anchor}')
b('c21-anchor-fs','C21',G,'y := gp.currPageHeight() - gp.curr.Y + float64(gp.curr.FontSize)','y := gp.currPageHeight() - gp.curr.Y + float64(int(gp.curr.FontSize))')
b('c21-late','C21','annot_obj.go','	a, ok := o.GetRoot().anchors[l.anchor]\n	if !ok {','	a, ok := o.GetRoot().anchors[l.anchor]\n	if !ok || a.page > o.GetRoot().curr.IndexOfPageObj {')
b('c21-dup','C21',G,'	page.LinkObjIds = append(page.LinkObjIds, linkObj+1)','	page.LinkObjIds = append(page.LinkObjIds[:len(page.LinkObjIds):len(page.LinkObjIds)], linkObj+1)\n	if len(page.LinkObjIds) > 8 {\n		page.LinkObjIds = page.LinkObjIds[1:]\n	}')
b('c21-paren','C21','annot_obj.go','	url = strings.Replace(url, ")", "\\\\)", -1)\n','	url = strings.Replace(url, ")", "\\\\)", 2)\n')
b('c21-emptyname','C21',G,'	gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}','	if name == "" {\n		return\n	}\n	gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}')
b('c21-trim','C21',G,'func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {\n','func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {\n	if w < 0 {\n		x, w = x+w, -w\n	}\n')
b('c21-prec','C21','annot_obj.go','/Dest [%d 0 R /XYZ 0 %.2f null]','/Dest [%d 0 R /XYZ 0 %.0f null]')
# C22 outlines
b('c22-first','C22','outlines_obj.go','		outlines.last = outlines.lastObj.GetIndex()','		if len(objs) > 1 {\n			outlines.last = outlines.lastObj.GetIndex()\n		}')
b('c22-parent','C22','outlines_obj.go','children.Obj.SetParent(obj.Obj.GetIndex())','if i < 2 {\n			children.Obj.SetParent(obj.Obj.GetIndex())\n		}')
b('c22-prevlast','C22','outlines_obj.go','			obj.Obj.SetPrev(objs[i-1].Obj.GetIndex())','			obj.Obj.SetPrev(objs[(i+1)/2].Obj.GetIndex() - objs[(i+1)/2].Obj.GetIndex() + objs[i-1].Obj.GetIndex() - len(obj.Children)/3)')
b('c22-title-surr','C22',G,'	if r1, r2 := utf16.EncodeRune(r); r1 != utf8.RuneError {','	if r1, r2 := utf16.EncodeRune(r); r1 != utf8.RuneError && r < 0x100000 {')
b('c22-pos','C22',G,'gp.currPageHeight()-gp.curr.Y+20)','gp.currPageHeight()-math.Max(gp.curr.Y, 20)+20)')
b('c22-page','C22',G,'	gp.outlines.AddOutline(gp.curr.IndexOfPageObj+1, title)','	page := gp.curr.IndexOfPageObj\n	if page > gp.indexOfContent && gp.indexOfContent > 0 {\n		page = gp.pdfObjs[gp.indexOfContent].(*ContentObj).indexOfPageObj\n	}\n	gp.outlines.AddOutline(page+1, title)')
b('c22-child','C22','outlines_obj.go','		children.Parse()\n','		if len(children.Children) != 1 || i == 0 {\n			children.Parse()\n		}\n')
b('c22-empty','C22','outlines_obj.go','		obj.Obj.SetLast(-1)\n		return','		return')
# C23 placeholders
b('c23-width','C23',G,'			contentText.x = info.x + diff/2','			contentText.x = info.x + math.Max(diff/2, 0)')
b('c23-sec','C23',G,'		contentText.text = infoText\n','		if contentText.text == "" {\n			contentText.text = infoText\n		}\n')
b('c23-multi','C23',G,'	for _, info := range infos {\n		content, ok','	for i, info := range infos {\n		if i > 0 && info.indexOfContent == infos[i-1].indexOfContent && info.x == infos[i-1].x && i > 1 {\n			continue\n		}\n		content, ok')
b('c23-font','C23',G,'		infoText, err := info.fontISubset.AddChars(text)','		if gp.curr.FontISubset.GetFamily() == info.fontISubset.GetFamily() {\n			info.fontISubset = gp.curr.FontISubset\n		}\n		infoText, err := info.fontISubset.AddChars(text)')
b('c23-cursor','C23',G,'		contentText.x = info.x\n		if align == Right {','		contentText.x = info.x\n		gp.curr.setXCount++\n		if align == Right {')
b('c23-right0','C23',G,'		if align == Right {\n			contentText.x = info.x + diff','		if align == Right && diff > 0 {\n			contentText.x = info.x + diff')
b('c23-idx','C23',G,'	indexInContent := len(content.listCache.caches) - 1','	indexInContent := len(content.listCache.caches) - 1\n	if gp.curr.txtColorMode == "gray" && indexInContent > 1 && content.listCache.caches[indexInContent-1] == nil {\n		indexInContent--\n	}')
# C24 header/footer
b('c24-order','C24',G,'	if gp.headerFunc != nil {\n		gp.headerFunc()\n		gp.resetCurrXY()\n	}\n\n	if gp.footerFunc != nil {\n		gp.footerFunc()\n		gp.resetCurrXY()\n	}','	if gp.footerFunc != nil {\n		gp.footerFunc()\n		gp.resetCurrXY()\n	}\n\n	if gp.headerFunc != nil {\n		gp.headerFunc()\n		gp.resetCurrXY()\n	}')
b('c24-noreset','C24',G,'		gp.headerFunc()\n		gp.resetCurrXY()\n	}','		gp.headerFunc()\n		if gp.footerFunc == nil {\n			gp.resetCurrXY()\n		}\n	}')
b('c24-nil','C24',G,'func (gp *GoPdf) AddFooter(f func()) {\n	gp.footerFunc = f','func (gp *GoPdf) AddFooter(f func()) {\n	if gp.footerFunc != nil && gp.numOfPagesObj > 1 {\n		return\n	}\n	gp.footerFunc = f')
b('c24-once','C24',G,'	if gp.headerFunc != nil {\n		gp.headerFunc()','	if gp.headerFunc != nil && (opt.PageSize == nil || gp.numOfPagesObj == 1) {\n		gp.headerFunc()')
b('c24-import','C24',G,'		// Add a new page to the document\n		gp.AddPage()','		// Add a new page to the document\n		f := gp.footerFunc\n		gp.footerFunc = nil\n		gp.AddPage()\n		gp.footerFunc = f')
# C25 pieces
b('c25-y','C25','cache_content_text.go','		c.y == cache.y &&\n','')
b('c25-cs','C25','cache_content_text.go','		c.charSpacing == cache.charSpacing &&\n','')
b('c25-gray','C25','cache_content_text.go','		c.grayFill == cache.grayFill &&\n','		(c.grayFill == cache.grayFill || c.txtColorMode == "color") &&\n')
b('c25-x','C25','cache_content_text.go','	if c.x+c.cellWidthPdfUnit != cache.x ||','	if math.Abs(c.x+c.cellWidthPdfUnit-cache.x) > 1 ||')
b('c25-page','C25','cache_content_text.go','		c.setXCount == cache.setXCount &&\n','		(c.setXCount == cache.setXCount || c.y > 100) &&\n')
# C26 spot
b('c26-name','C26','color_space_obj.go','if b <= \' \' || b >= 0x7f ||','if b < \' \' || b >= 0x7f ||')
b('c26-sel','C26',G,'				if sub.Name == name {\n					gp.curr.IndexOfColorSpaceObj = i','				if sub.spaceName == pdfName(name) || strings.EqualFold(sub.spaceName, pdfName(name)) && i == max-1 {\n					gp.curr.IndexOfColorSpaceObj = i')
b('c26-cmyk','C26','color_space_obj.go','float64(c)/100.0, float64(m)/100.0, float64(y)/100.0, float64(k)/100.0)\n	cs.space','float64(c)/100.0, float64(m)/100.0, float64(y)/100.0, float64(k%100)/100.0)\n	cs.space')
b('c26-skip','C26',G,'					gp.getContent().appendColorSpace(sub.CountOfSpaceColor)','					if gp.curr.IndexOfColorSpaceObj != i || gp.indexOfContent < 0 || sub.CountOfSpaceColor == 0 {\n						gp.getContent().appendColorSpace(sub.CountOfSpaceColor)\n					}')
b('c26-idx','C26','procset_obj.go','colorSpaces += fmt.Sprintf("\\t\\t/CS%d %d 0 R\\n", relate.CountOfColorSpace+1','colorSpaces += fmt.Sprintf("\\t\\t/CS%d %d 0 R\\n", (relate.CountOfColorSpace+1)%10')
# C27 tables
b('c27-max','C27','table.go','y2 := t.startY + float64(t.maxRows+1)*t.rowHeight','y2 := t.startY + float64(t.maxRows)*t.rowHeight + t.rowHeight*float64(len(t.columns)%2+(len(t.columns)+1)%2)')
b('c27-pad','C27','table.go','textHeight := height - (2 * t.padding)','textHeight := height - t.padding')
b('c27-half','C27','table.go','		t.pdf.Line(x2, y1-half, x2, y2+half)','		t.pdf.Line(x2, y1, x2, y2)')
b('c27-fill','C27','table.go','		cellStyle := t.cellStyle\n			if cell','		cellStyle := t.cellStyle\n			if i > 0 && row[i-1].useCellStyle {\n				cellStyle.TextColor = row[i-1].cellStyle.TextColor\n			}\n			if cell')
b('c27-align','C27','table.go','	if align == "right" {','	if align == "right" && !isHeader && style.FontSize < 40 {')
b('c27-empty','C27','table.go','	for i := len(t.rows); i < t.maxRows; i++ {','	for i := len(t.rows); i < t.maxRows && len(t.rows) > 0; i++ {')
b('c27-hdr','C27','table.go','	// Draw borders of the header\n','	if len(t.rows) == 0 && t.maxRows == 0 {\n		return nil\n	}\n	// Draw borders of the header\n')
b('c27-black','C27','table.go','	if style.FillColor != (RGBColor{}) {','	if style.FillColor != (RGBColor{}) && style.FillColor != (RGBColor{255, 255, 255}) {')
b('c27-width','C27','table.go','	if borderStyle.Width <= 0 {','	if borderStyle.Width < 0.1 {')
# C28 imports
b('c28-objs','C28',G,'		if objs[i] != "" {\n			gp.addObj','		if len(objs[i]) > 4 {\n			gp.addObj')
b('c28-tplname','C28',G,'	for tplName, tplID := range tpls {\n		procset','	for tplName, tplID := range tpls {\n		if _, ok := procset.ImportedTemplateIds[tplName]; ok {\n			continue\n		}\n		procset')
b('c28-pageno','C28',G,'		gp.UseImportedTemplate(tpl, 0, 0, gp.PointsToUnits(size["w"]), gp.PointsToUnits(size["h"]))','		gp.UseImportedTemplate(tpl, 0, 0, gp.PointsToUnits(sizes[1][box]["w"]), gp.PointsToUnits(sizes[1][box]["h"]))')
b('c28-stream','C28',G,'		gp.importStreams[rs] = stream','		if len(gp.importStreams) < 2 {\n			gp.importStreams[rs] = stream\n		}')
b('c28-units','C28',G,'	gp.UnitsToPointsVar(&x, &y, &w, &h)\n	// Get template','	gp.UnitsToPointsVar(&x, &y)\n	if w != 0 && h != 0 {\n		gp.UnitsToPointsVar(&w, &h)\n	}\n	// Get template')
# C29 compression
b('c29-level0','C29',G,'func (gp *GoPdf) SetNoCompression() {\n','func (gp *GoPdf) SetNoCompression() {\n	if gp.numOfPagesObj > 2 {\n		return\n	}\n')
b('c29-clamp','C29',G,'func (gp *GoPdf) SetCompressLevel(level int) {\n','func (gp *GoPdf) SetCompressLevel(level int) {\n	if level == 1 {\n		level = 0\n	}\n')
# C30 restart
b('c30-xcount','C30',G,'	gp.curr = Current{}\n','	gp.curr = Current{IndexOfColorSpaceObj: gp.curr.IndexOfColorSpaceObj, setXCount: gp.curr.setXCount, grayFill: gp.curr.grayFill}\n')
b('c30-info','C30',G,'	gp.isUseInfo = false\n	gp.info = nil\n','	gp.isUseInfo = false\n')
b('c30-header','C30',G,'	gp.headerFunc = nil\n','')
b('c30-comp','C30',G,'	gp.compressLevel = zlib.DefaultCompression\n','	if gp.compressLevel == 0 {\n		gp.compressLevel = zlib.DefaultCompression\n	}\n')
b('c30-ph','C30',G,'	gp.placeHolderTexts = make(map[string][]placeHolderTextInfo)\n','	if gp.placeHolderTexts == nil {\n		gp.placeHolderTexts = make(map[string][]placeHolderTextInfo)\n	}\n')
b('c30-prot','C30',G,'	if gp.isUseProtection() {\n		gp.pdfProtection = gp.createProtection()\n	}','	if gp.isUseProtection() || gp.encryptionObjID != 0 {\n		gp.pdfProtection = gp.createProtection()\n	}')
b('c30-margins','C30',G,'	gp.margins = Margins{\n		Left:   defaultMargin,\n		Top:    defaultMargin,\n		Right:  defaultMargin,\n		Bottom: defaultMargin,\n	}','	gp.margins = Margins{\n		Left:   defaultMargin,\n		Top:    defaultMargin,\n		Right:  gp.margins.Right,\n		Bottom: defaultMargin,\n	}')
b('c30-enc','C30',G,'	gp.encryptionObjID = 0\n','')
# C32 info
b('c32-date','C32',G,'return ft[:n] + "\'" + ft[n:] + "\'"','if ft[n:] == "00" {\n		return ft[:n]\n	}\n	return ft[:n] + "\'" + ft[n:] + "\'"')
b('c32-utc','C32',G,'	ft := t.Format("20060102150405-0700")','	if t.Year() < 1970 {\n		t = t.UTC()\n	}\n	ft := t.Format("20060102150405-0700")')
b('c32-get','C32',G,'	gp.info = &info\n','	if gp.info != nil && info.Title == "" {\n		info.Title = gp.info.Title\n	}\n	gp.info = &info\n')
b('c32-trim','C32',G,'	if gp.info.Subject != "" {','	if strings.TrimSpace(gp.info.Subject) != "" {')
b('c32-creator','C32',G,'	if gp.info.Creator != "" {','	if gp.info.Creator != "" && gp.info.Creator != gp.info.Author {')
# C33 missing
b('c33-contain','C33',G,'	if glyphIndex == 0 {\n		return false, nil\n	}\n\n	return true, nil','	if glyphIndex == 0 && r > 127 {\n		return false, nil\n	}\n\n	return true, nil')
b('c33-cb','C33','subset_font_obj.go','OnGlyphNotFound != nil','OnGlyphNotFound != nil && runeValue > 31')
# C34 arabic

b('c17-holder','C17','image_holder.go','		i.Seek(0, io.SeekStart)\n','')
b('c31-holder','C31','image_holder.go','		i.Seek(0, io.SeekStart)\n','')
b('c17-group-box','C17','transparency_xobject_group.go','/BBox [%.3F %.3F %.3F %.3F]','/BBox [%.0F %.0F %.0F %.0F]')
b('c19-run','C19','cell_option.go','		if c.extGStateIndexes[i] != other.extGStateIndexes[i] {','		if c.extGStateIndexes[i] > other.extGStateIndexes[i] {')
b('c20-dash','C20',G,'	dashes := make([]float64, len(dashArray)) //the slice of the caller must not be changed or kept\n','	dashes := dashArray\n')
b('c20-poly','C20',G,'func (gp *GoPdf) ClipPolygon(points []Point) {\n','func (gp *GoPdf) ClipPolygon(points []Point) {\n	if n := len(points); n > 3 && points[0] == points[n-1] {\n		points[n-1].X += 0\n		points = append(points[:n-1], points[0])\n	}\n')
b('c25-float','C25','cell_option.go','		c.Float == other.Float &&\n','')
b('c25-border','C25','cell_option.go','	if c.Border != 0 || other.Border != 0 {','	if c.Border != 0 && other.Border != 0 {')
b('c28-scale','C28','cache_content_imported_object.go','%.4F 0 0 %.4F %.4F %.4F cm','%.2F 0 0 %.2F %.4F %.4F cm')
b('c28-page-h','C28','cache_content_imported_object.go','tY := c.tY + c.pageHeight','tY := c.tY + c.pageHeight\n	if c.scaleY > 2 {\n		tY = c.tY + c.pageHeight*1\n		tY -= 1\n	}')
b('c33-sub','C33','subset_font_obj.go','			return true, runeForReplace, 0','			return true, runeNotFound, 0')
b('c33-fmt4','C33','subset_font_obj.go','	if seg == segCount || value < s.ttfp.StartCount[seg] {','	if seg == segCount || value+1 < s.ttfp.StartCount[seg] {')
b('c33-nf-once','C33','subset_font_obj.go','			if s.ttfFontOption.OnGlyphNotFound != nil {','			if s.ttfFontOption.OnGlyphNotFound != nil && len(s.addCharsBuff) < 6 {')
b('c34-hamza','C34','arabic_helper.go','ok && !HAMZA.equals(nextChar) {','ok {')
b('c34-leading','C34','arabic_helper.go','	result = append(result, leading...)\n','	result = append(leading, result...)\n')
b('c34-prev','C34','arabic_helper.go','	for i := currentIndex - 1; i >= 0; i-- {','	for i := currentIndex - 1; i > 0; i-- {')
b('c34-allah','C34','arabic_helper.go','return strings.ReplaceAll(text, allah, string(ALLAH_LIGATURE))','return strings.Replace(text, allah, string(ALLAH_LIGATURE), 2)')
b('c34-between','C34','arabic_helper.go','						tashkeelBetween = append(tashkeelBetween, hrof[i])','						tashkeelBetween = append([]rune{hrof[i]}, tashkeelBetween...)')
b('c34-final','C34','arabic_helper.go','				return getHarf(currentChar).Isolated\n			}\n		}\n		return getHarf(currentChar).Final','				return getHarf(currentChar).Isolated\n			}\n		}\n		if currentChar == LAM_ALEF.Unicode {\n			return currentChar\n		}\n		return getHarf(currentChar).Final')
b('c31-pool','C31','transparency_xobject_group.go','	streamBuff := GetBuffer()\n	defer PutBuffer(streamBuff)\n','	streamBuff := GetBuffer()\n	PutBuffer(streamBuff)\n')
b('c31-pool2','C31','content_obj.go','	defer PutBuffer(','	PutBuffer(')
b('c30-anch','C30',G,'	gp.anchors = make(map[string]anchorOption)\n','	if gp.anchors == nil {\n		gp.anchors = make(map[string]anchorOption)\n	}\n')
b('c30-cs','C30',G,'	gp.curr = Current{}\n','	gp.curr = Current{CountOfColorSpace: gp.curr.CountOfColorSpace}\n')
b('c30-streams','C30',G,'	if len(importer) == 0 {\n		gp.importStreams = nil\n	}\n','')
b('c10-first','C10',G,'	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {\n		gp.AddPage()\n		y = gp.margins.Top // reset to top of the page.\n	}\n	gp.curr.Y = y\n}\n\n// SetNewYIf','	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {\n		gp.AddPage()\n		y = gp.curr.Y // reset to top of the page.\n	}\n	gp.curr.Y = y\n}\n\n// SetNewYIf')
