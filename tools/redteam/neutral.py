"""Edits that keep the behaviour (what files show), to run with many checks: all must stay quiet.
run.py -c C03,C05,... neutral.py"""
B=[]
def b(name, f, *edits):
    B.append((name, 'C03', [(f, o, n) for o, n in edits], True, '', 1))
T='cache_content_text.go'
b('n-color-digits','cache_content_text_color_rgb.go',('"%.3f %.3f %.3f %s\\n"','"%.5f %.5f %.5f %s\\n"'))
b('n-line','cache_content_line.go',('"%0.2f %0.2f m %0.2f %0.2f l S\\n"','"%.4f %.4f m\\n%.4f %.4f l\\nS\\n"'))
b('n-rect','cache_content_rectangle.go',('stream += fmt.Sprintf("%0.2f %0.2f %0.2f %0.2f re %s\\n", c.x, c.pageHeight-c.y, c.width, c.height, c.style)',
  'x, y := c.x, c.pageHeight-c.y\n	stream += fmt.Sprintf("%0.2f %0.2f m %0.2f %0.2f l %0.2f %0.2f l %0.2f %0.2f l h %s\\n", x, y, x+c.width, y, x+c.width, y+c.height, x, y+c.height, c.style)'))
b('n-text',T,('"%0.2f %0.2f TD\\n"','"1 0 0 1 %0.3f %0.3f Tm\\n"'),('fmt.Fprintf(w, "%04X", glyphindex)','fmt.Fprintf(w, "%04x> <", glyphindex)'))
b('n-state',T,('mustSaveState := isColorMode || len(c.cellOpt.extGStateIndexes) > 0','mustSaveState := true'))
b('n-buffer','gopdf.go',('		fmt.Fprintf(writer, "%d 0 obj\\n", objID)\n		if err := pdfObj.write(writer, objID); err != nil {\n			return writer.offset, err\n		}\n		io.WriteString(writer, "endobj\\n\\n")',
  '		var one bytes.Buffer\n		fmt.Fprintf(&one, "%d 0 obj\\n", objID)\n		if err := pdfObj.write(&one, objID); err != nil {\n			return writer.offset, err\n		}\n		one.WriteString("endobj\\n\\n")\n		writer.Write(one.Bytes())'))
b('n-opaque','gopdf.go',('} else if t.Alpha != DefaultAplhaValue || t.BlendModeType != NormalBlendMode {','} else {'),('		return &t, nil\n	}\n\n	return nil, nil\n}','		return &t, nil\n	}\n}'))
b('n-widths','cid_font_obj.go',('"%d[%d]"','"%d [ %d ] "'))
