#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Every output is a structurally valid PDF file",
  "Whatever sequence of public calls built the document, each produced file has a header, a cross-reference table whose every entry is the exact byte offset of the object it numbers, a trailer whose size, root and start offset are right, and stream lengths equal to the bytes present. Every indirect reference in the file leads to an object that exists and is of the kind the referring key needs (pages, resources, fonts and their descendants, images and masks, graphics states, colour spaces, annotations, destinations, outline items).",
  ["programs", "configurations"], "all call sequences mixing pages, fonts, drawing, images, masks, transparency, colour spaces, links, outlines, imported pages, info, protection and compression",
  "Tests only check that a few fixed programs produce a non-empty file; nothing parses the cross-reference table or resolves references, and object numbering depends on the whole call history.",
  ["gopdf.go", "procset_obj.go", "page_obj.go", "pages_obj.go", "catalog_obj.go", "image_obj.go", "smask_obj.go", "imported_obj.go"],
  [("object table compilation and cross-reference writing", "gopdf.go: compilePdf, xref, prepare"), ("resource dictionary", "procset_obj.go: write")],
  ["bytes returned by the output methods"])

p("C02", "Page tree: every page once, in order, with its own size",
  "The file's page tree lists exactly the pages that were added, each once and in the order of the add-page calls, its count equals both that number and the reported number of pages. Each page has the page size and trim box it was added with, converted from the document's unit, and pages added without options have the document's default size.",
  ["programs", "configurations"], "all sequences of page additions with and without options, interleaved with drawing, headers, automatic page breaks, and output",
  "Tests sample one or two pages; page order and size are functions of the whole history, units and options.",
  ["gopdf.go", "page_obj.go", "pages_obj.go", "page_option.go", "rect.go"],
  [("page registration", "gopdf.go: AddPageWithOption, prepare"), ("page dictionary", "page_obj.go: write")],
  ["page dictionaries in the output", "reported number of pages"])

p("C03", "Each drawing call marks the selected page once, in call order",
  "Every successful drawing call adds its marks exactly once to the page that is current at the call, whether that page was just added or selected by page number, and to no other page. On each page the marks appear in the order of the calls.",
  ["programs", "histories"], "all interleavings of drawing calls, page additions, page selection and header/footer functions",
  "The placement depends on the interleaving of page and draw calls; tests have a single fixed interleaving and do not read the page contents back.",
  ["gopdf.go", "content_obj.go", "list_cache_content.go"],
  [("content selection", "gopdf.go: getContent, SetPage, AddPageWithOption"), ("content list", "list_cache_content.go")],
  ["decoded page content streams"])

p("C04", "Producing output is repeatable and does not change the document",
  "Producing output twice with no call in between, by the same or another output method, gives the same bytes. Producing output any number of times does not change what the document shows: content added after an output appears in the next output exactly as if the earlier output had not been made (object numbers may differ).",
  ["histories", "programs"], "all histories that insert any number of outputs, by any method, between document-building calls",
  "Tests write each document once; accumulation across outputs only shows in histories with several outputs.",
  ["gopdf.go", "page_obj.go", "pages_obj.go", "cache_content_imported_object.go", "encryption_obj.go"],
  [("output compilation", "gopdf.go: prepare, compilePdf, GetBytesPdfReturnErr, WriteTo, Write, WritePdf, Read, Close")],
  ["bytes of successive outputs", "parsed documents"])

p("C05", "Output errors are reported and streamed reads deliver the whole file",
  "If the destination fails at any point, the write methods return that error (some error for a destination that accepts less without saying why), and the counting one a byte count equal to what the destination accepted; if it never fails they return no error and the full count. Reading the document as a stream with any sequence of buffer sizes yields exactly the complete file and then end-of-file.",
  ["fault_sequences", "schedules"], "every failure point of the destination (including short writes) and every sequence of read sizes",
  "Tests use only in-memory writers that cannot fail and read everything at once.",
  ["gopdf.go"],
  [("counting writer and compile loop", "gopdf.go: compilePdf, countingWriter, WriteTo, Write, Read")],
  ["return values", "bytes received by the destination"])

p("C06", "Shapes are painted with the attributes in force when they were drawn",
  "Each line, rectangle, oval, curve and polygon is painted with the line width, dash pattern, stroke colour and fill colour most recently set on its page before it, and drawing text does not change them. Saved and restored graphics state and rotations scope exactly the calls between them, clips apply until restored, and every page's save/restore operations balance when the caller's do.",
  ["programs"], "all sequences of attribute-setting, drawing, text, rotation, clipping and save/restore calls over several pages",
  "Attribute scoping is a property of call sequences; tests never interpret the resulting graphics state.",
  ["gopdf.go", "content_obj.go", "cache_content_line.go", "cache_content_rectangle.go", "cache_content_polygon.go", "cache_content_clip.go", "cache_content_graphics_state.go", "cache_content_rotate.go", "cache_content_text.go"],
  [("attribute and shape emission", "content_obj.go: AppendStream*; cache_content_*.go: write")],
  ["decoded page content streams interpreted as PDF graphics"])

p("C07", "Shapes are drawn at the geometry the caller gave",
  "Every shape (line, rectangle in all its forms, rounded rectangle, oval, curve, polygon, clip polygon) covers the coordinates given by the caller, measured from the top-left corner of the page it is drawn on in the document's unit, with the paint style asked for. Rotations turn the shapes between start and reset counter-clockwise by the given angle around the given point.",
  ["inputs", "configurations"], "all coordinates, paint styles, rotation angles, units and page sizes (also mixed sizes in one document)",
  "Tests do not read coordinates back and use points and A4 almost exclusively.",
  ["gopdf.go", "cache_content_line.go", "cache_content_rectangle.go", "cache_content_oval.go", "cache_contnent_curve.go", "cache_content_polygon.go", "cache_content_rotate.go", "style.go"],
  [("coordinate conversion and emission", "gopdf.go: Line, Rect*, Oval, Curve, Polygon, Rectangle; cache_content_*.go")],
  ["decoded page content streams interpreted as PDF graphics"])

p("C08", "The document unit only changes how numbers are read",
  "Programs that express the same lengths in different document units (points, millimetres, centimetres, inches, pixels or a custom conversion factor) produce pages with the same geometry. Positions, margins, text widths and heights reported by the document are in its unit and read back the values that were set.",
  ["configurations", "programs"], "all units and custom conversion factors, for all length-taking and length-returning calls",
  "Tests run almost only in points; a missing or double conversion shows only with other units.",
  ["config.go", "gopdf.go", "rect.go", "margin.go", "page_option.go"],
  [("unit conversion", "config.go: unitsToPoints, pointsToUnits; rect.go: UnitsToPoints; margin.go")],
  ["getter results", "decoded page content"])

p("C09", "The writing position moves exactly as documented",
  "A page addition puts the writing position at the left/top margins; explicit positioning puts it where asked; a line break moves down by the given height and back to the left margin; writing text moves it right by the width of the text; a cell moves it right by the cell width and/or down by the cell height according to its float option. No other call moves it.",
  ["programs"], "all sequences of positioning, text, cell, break, margin, drawing and page calls",
  "The position is accumulated over the whole call sequence; tests check few individual moves.",
  ["gopdf.go", "margin.go", "list_cache_content.go", "cell_option.go"],
  [("cursor updates", "gopdf.go: SetX, SetY, SetXY, Br, AddPageWithOption; list_cache_content.go: appendContentText")],
  ["position getters", "position of subsequent marks"])

p("C10", "Automatic page break happens exactly when the element does not fit",
  "Placing the next element with the page-break helpers adds one page and moves to its top margin when the element's height would cross the bottom margin of the current page, and otherwise moves to the requested position on the current page. The decision uses the size of the current page and the configured margins in every unit, and after a break the position is exactly the margin.",
  ["inputs", "configurations", "programs"], "all heights, positions, margins, units and page sizes",
  "Tests cover points with default page size, where mixing units is invisible.",
  ["gopdf.go", "margin.go"],
  [("page break helpers", "gopdf.go: SetNewY, SetNewYIfNoOffset, SetNewXY")],
  ["number of pages", "position getters"])

p("C11", "Text splitting keeps the text, fits the width and terminates",
  "Splitting a text always terminates and returns lines that, put together again, give the text: no character is lost, duplicated or reordered except the newlines that were obeyed (one at the end opens no further line), the break indicator at which a line was broken, and the separators inserted when a word had to be cut. Every line fits the width unless it holds a single character wider than it, and lines break at the break indicator when one is available in that mode.",
  ["inputs", "configurations"], "all texts, widths (including narrower than one character), modes, indicators and separators",
  "Tests use a few texts and generous widths; narrow widths and separators are not sampled.",
  ["gopdf.go", "cell_option.go"],
  [("line breaking", "gopdf.go: SplitTextWithOption, performStrictLineBreak, performIndicatorSensitiveLineBreak")],
  ["returned lines", "measured widths"])

p("C12", "Multi-line cells draw what the fit check promises",
  "A multi-line cell draws the text's characters in order, one line below the other starting at the current position, each line within the cell width, and stops when the next line would pass the cell height. The fit check answers yes exactly when the whole text is drawn and reports the height the lines take; the position after drawing is at the same x, below the last line.",
  ["inputs", "programs"], "all texts, widths, heights, font sizes and start positions",
  "Tests compare a handful of texts; agreement must hold for every text and rectangle.",
  ["gopdf.go"],
  [("multi-line cells", "gopdf.go: MultiCell, MultiCellWithOption, IsFitMultiCell, IsFitMultiCellWithNewline")],
  ["returned fit and height", "glyph positions on the page", "position getters"])

p("C13", "Every character written is embedded, shaped and extractable",
  "For every character written with a TrueType font, the file shows the glyph that font maps it to: the embedded font program holds that glyph with the same outline as the source font, including the components of composite glyphs, and its width in the file is the source font's. The embedded program is a well formed font file that keeps the source font's hinting programs, and the font's description in the file (ascent, descent, height of capitals, box, italic angle) is that of the source. Text extraction maps every shown glyph back to the character written, also for characters outside the basic plane.",
  ["programs", "inputs"], "all texts over the characters of the fonts, all orders and mixtures of writing and measuring calls, several fonts in one document",
  "The subset is accumulated over all text calls; tests do not parse the embedded font, widths or character maps.",
  ["subset_font_obj.go", "pdf_dictionary_obj.go", "unicode_map.go", "cid_font_obj.go", "map_of_character_To_glyph_index.go", "subfont_descriptor_obj.go", "fontmaker/core/ttfparser.go"],
  [("subset accumulation", "subset_font_obj.go: AddChars"), ("font file generation", "pdf_dictionary_obj.go: makeFont, completeGlyphClosure"), ("character map", "unicode_map.go"), ("widths", "cid_font_obj.go")],
  ["embedded font program", "width array", "character map", "shown glyph codes"])

p("C14", "Text is shown with the font, size, colour and spacing last selected",
  "Each text call uses the font family and style most recently selected, its size, the text colour (or, while none is selected, the fill colour or gray level of its page) and the character spacing in force at the call, independent of other fonts added before or after and of pages in between. Selecting a family or style that was not added fails and keeps the previous selection.",
  ["programs"], "all interleavings of adding fonts, selecting, sizing, colouring, spacing and writing, with duplicate families and several styles",
  "Tests select one font and write; interleavings with several fonts and styles are not covered.",
  ["gopdf.go", "content_obj.go", "cache_content_text.go", "list_cache_content.go"],
  [("font selection", "gopdf.go: SetFontWithStyle, SetFontSize, SetCharSpacing, SetTextColor"), ("run merging", "list_cache_content.go: appendContentText; cache_content_text.go: isSame")],
  ["shown text with its font resource, size, spacing and colour"])

p("C15", "Measured text width is the width drawn, and alignment is exact",
  "The measured width of a text equals the distance its glyphs advance when drawn, including kerning and character spacing, up to the rounding of the font's units to thousandths of the font size per character. Cell alignment (left, centre, right, top, middle, bottom) places the text accordingly inside the cell, a justified line fills its cell exactly by widening its inner word gaps, and borders and underlines follow the cell.",
  ["inputs", "configurations"], "all texts, font sizes, spacings, kerning on/off, cell sizes, alignments and borders",
  "Tests check individual helper values, not that measuring, advancing and drawing agree for all texts.",
  ["gopdf.go", "cache_content_text.go", "subset_font_obj.go", "cell_option.go"],
  [("text measurement", "cache_content_text.go: createContent"), ("text drawing", "cache_content_text.go: write, calX, calY, drawBorder, underline")],
  ["measuring calls", "glyph positions", "border marks"])

p("C16", "Protected documents decrypt to the same document",
  "With protection on, opening the file with the user or the owner password by the standard algorithm recovers the same key, and decrypting every stream and string object with it (the information dictionary, which stands in the trailer itself, is in the clear) gives the same document as without protection. The permissions in the file are the ones asked for, the content, fonts and images are not readable without the key, and a wrong password is rejected.",
  ["configurations", "programs", "inputs"], "all passwords (empty, long, equal, sharing memory), permission masks and document contents",
  "Tests check one key derivation; they never decrypt an output.",
  ["pdf_protection.go", "encryption_obj.go", "content_obj.go", "image_obj.go", "pdf_dictionary_obj.go", "unicode_map.go", "page_obj.go", "outlines_obj.go", "smask_obj.go", "embedfont_obj.go", "device_rgb_obj.go", "transparency_xobject_group.go"],
  [("key derivation", "pdf_protection.go"), ("per-object encryption", "*_obj.go: write")],
  ["encryption dictionary", "decrypted objects"])

p("C17", "Images: the right picture at the right place, embedded once",
  "Every image drawn appears with its own pixels and, when given, its own mask, in the rectangle asked for (by default its natural size, 128 pixels per inch in whole points), with the flips, rotation and crop asked for. Drawing the same image again in the same way (plain, masked, or as a mask, which needs an image with an alpha channel) reuses one embedded copy, and different images are never confused, whatever the order in which images and masks are used.",
  ["programs", "inputs"], "all orders of drawing several images with and without masks, sizes, flips, rotation, crop and transparency over several pages",
  "Reuse and masks depend on the history of image calls; tests draw each image once without reading it back.",
  ["gopdf.go", "image_obj.go", "image_obj_parse.go", "image_holder.go", "cache_content_image.go", "smask_obj.go", "transparency_xobject_group.go"],
  [("image cache", "gopdf.go: imageByHolder, maskHolder"), ("image emission", "cache_content_image.go")],
  ["image objects and their placement in the decoded content"])

p("C18", "A failed call leaves the document as it was",
  "When a call reports an error (unknown font, missing or broken font or image file, bad rectangle, unknown page, duplicate or unknown colour space, unknown placeholder, invalid transparency, empty text), what the output shows and the position, page count and selections are the same as if the call had not been made. A damaged font or image file is refused in this way or used, it never makes a call or the output fail otherwise.",
  ["programs", "inputs"], "all failing calls inserted at any point of any program",
  "Tests check that errors are returned, not that nothing else changed.",
  ["gopdf.go", "image_holder.go", "subset_font_obj.go", "color_space_obj.go"],
  [("error paths", "gopdf.go: all functions returning error")],
  ["output with and without the failing call"])

p("C19", "Transparency applies exactly to the calls it is set for",
  "A transparency set on the document applies its alpha and blend mode to the lines, polygons, styled rectangles, cells with options and images with options drawn until it is cleared or replaced, a transparency given to one call applies to that call only, and all other marks are opaque. Every value of alpha and blend mode gives a valid graphics state with those values, later changes of the caller's variables do not matter.",
  ["programs", "inputs"], "all sequences of setting, clearing and per-call transparencies with all alphas and blend modes",
  "Sharing of graphics states by value depends on the history; tests do not look at the graphics states.",
  ["transparency.go", "ext_g_state_obj.go", "gopdf.go"],
  [("transparency cache", "gopdf.go: saveTransparency, getCachedTransparency; ext_g_state_obj.go: GetCachedExtGState")],
  ["graphics state in force at each mark"])

p("C20", "Calls do not modify or retain the caller's values",
  "No call changes the slices, option structures or rectangles passed to it, and changing them after the call does not change the document.",
  ["programs", "inputs"], "all calls taking slices, pointers or structures with pointers, with the caller reusing or changing them afterwards",
  "Tests pass fresh values and never look at them again.",
  ["gopdf.go", "cache_content_custom_line_type.go", "transparency.go", "pdf_protection.go", "image_holder.go"],
  [("argument handling", "gopdf.go: SetCustomLineType, Polygon, ImageByHolderWithOptions, SetTransparency, CellWithOption; pdf_protection.go: setProtection")],
  ["caller's values after the call", "output after changing them"])

p("C21", "Links cover the given area and lead to the right place",
  "Every link appears once on the page that was current when it was added, over the given rectangle of that page. External links carry exactly the given address, internal links lead to the page and height where their anchor was last set, also when the anchor is set after the link; a link to an anchor never set leads nowhere and harms nothing.",
  ["programs", "inputs"], "all interleavings of links, anchors, pages of different sizes and page selection, all addresses",
  "Tests add no link and read none back.",
  ["gopdf.go", "page_obj.go", "link_option.go"],
  [("annotations", "gopdf.go: AddExternalLink, AddInternalLink, SetAnchor, addLink; page_obj.go: writeExternalLink, writeInternalLink")],
  ["annotation dictionaries of the output"])

p("C22", "Outlines form a consistent tree leading to the right pages",
  "The outline of the document holds exactly the entries added, in order, with their titles, each leading to the page (and height) current when it was added. Parent, first, last, previous and next references agree with each other, also after arranging entries as a tree.",
  ["programs", "inputs"], "all sequences of outline entries over pages and all ways of nesting them",
  "One example is written without reading back; the linking depends on the whole sequence.",
  ["outlines_obj.go", "gopdf.go", "catalog_obj.go"],
  [("outline linking", "outlines_obj.go: AddOutline, AddOutlinesWithPosition, Parse")],
  ["outline dictionaries of the output"])

p("C23", "Placeholders show the text filled in, where they were reserved",
  "A placeholder reserves the given width at the position where it was created, and when filled it shows the last text filled in, at each place it was reserved, with the font, size and colour of the reservation, aligned in the reserved width as asked. Unfilled placeholders show nothing and everything around is unaffected.",
  ["programs", "inputs"], "all interleavings of reserving, writing, changing fonts, pages and filling (also repeatedly), all alignments and units",
  "Tests fill once with the reserving font still selected.",
  ["gopdf.go", "content_obj.go", "placeholder.go"],
  [("placeholders", "gopdf.go: PlaceHolderText, FillInPlaceHoldText; content_obj.go: appendStreamPlaceHolderText")],
  ["glyphs on the page"])

p("C24", "Header and footer are drawn exactly once on every page",
  "After header and footer functions are registered, every page added (explicitly or by an automatic break) gets the marks of the header function and then of the footer function exactly once, before its other content, and the writing position afterwards is at the margins. Pages added before are not changed.",
  ["programs"], "all interleavings of registering functions and adding pages by any call",
  "Tests register no functions with multiple pages and do not read pages back.",
  ["gopdf.go"],
  [("header/footer invocation", "gopdf.go: AddPageWithOption, AddHeader, AddFooter")],
  ["decoded page contents", "number of invocations"])

p("C25", "Splitting a text over several calls does not change what is shown",
  "Writing a text in consecutive pieces shows the same glyphs at the same places, with the same attributes, as each piece asks for: pieces are never shown with another piece's colour, cell size, alignment, border or transparency, and continue where the previous piece ended. The final position is the same as when written at once.",
  ["programs", "inputs"], "all ways of cutting texts into pieces mixed with attribute and position changes",
  "Merging of runs depends on the pair of consecutive calls; tests look at single calls.",
  ["list_cache_content.go", "cache_content_text.go", "content_obj.go"],
  [("run merging", "cache_content_text.go: isSame; list_cache_content.go: appendContentText")],
  ["glyphs with attributes", "position getters"])

p("C26", "Named colour spaces are distinct and painted as defined",
  "Each named spot colour added is embedded with the colour components given, and selecting it paints the text written, and the lines and borders stroked afterwards, with exactly that spot colour, whatever other colour spaces exist. Adding a name twice is refused and keeps the first, selecting an unknown name is refused.",
  ["programs", "inputs"], "all sequences of adding and selecting colour spaces",
  "Tests do not parse colour space objects.",
  ["gopdf.go", "color_space_obj.go", "cache_color_space.go", "procset_obj.go"],
  [("colour spaces", "gopdf.go: addColorSpace, SetColorSpace; color_space_obj.go")],
  ["colour space objects and fill colour at each mark"])

p("C27", "Tables draw every cell once at its row and column",
  "A drawn table shows the header and every row's content in its own cell: columns are side by side with the given widths, rows below each other with the given height, and missing rows up to the requested number are empty cells. Fill, border, text colour, font and alignment of each cell are those of its style.",
  ["inputs", "programs"], "all column sets, row counts, widths, alignments and styles",
  "Tests draw a few tables and check only that no error is returned.",
  ["table.go"],
  [("table drawing", "table.go: DrawTable, drawCell, drawBorder")],
  ["decoded page content"])

p("C28", "Imported pages are embedded whole and placed as asked",
  "Importing pages of another PDF embeds their content and everything it refers to under consistent references, whatever was in the document before, and using a template draws it at the place and in the size asked for, with the box of its source page. Importing all pages adds one page per source page, and outputs remain valid and repeatable.",
  ["programs", "inputs"], "all interleavings of importing (files, streams, several sources), using templates and other calls",
  "Tests import one file once into an empty document.",
  ["gopdf.go", "imported_obj.go", "cache_content_imported_object.go", "procset_obj.go"],
  [("import", "gopdf.go: ImportPage, ImportPageStream, ImportPagesFromSource, ImportObjects, ImportTemplates, UseImportedTemplate")],
  ["form objects and their placement in the output"])

p("C29", "Compression does not change the document",
  "For every compression level, including none and out-of-range levels that are adjusted, the file holds the same document after decompression, and content streams are stored uncompressed exactly when compression is off.",
  ["configurations", "programs"], "all levels set at any point of any program",
  "Tests produce files with one or two levels without comparing them.",
  ["gopdf.go", "content_obj.go", "pdf_dictionary_obj.go", "unicode_map.go"],
  [("compression", "gopdf.go: SetCompressLevel, SetNoCompression; content_obj.go: write")],
  ["decoded documents"])

p("C30", "Starting again gives an empty document",
  "Starting a document object again, after any use, gives the same result for any following program as a new document object: no page, content, function, selection or setting of the earlier use remains.",
  ["histories"], "all programs before and after a restart",
  "Tests use each document object once.",
  ["gopdf.go"],
  [("initialisation", "gopdf.go: start, init")],
  ["outputs compared with a fresh document"])

p("C31", "Documents are independent, also concurrently",
  "Building and writing several documents at the same time, interleaved or in parallel, with fonts shared through a font container, gives for each document the same file as building it alone.",
  ["schedules", "programs"], "all interleavings and parallel schedules of several documents sharing fonts and package-level state",
  "Tests run documents one after another except one container test that checks no error.",
  ["font_container.go", "gopdf.go", "buffer_pool.go", "fontmaker/core/ttfparser.go"],
  [("shared fonts", "font_container.go"), ("shared buffers", "buffer_pool.go")],
  ["outputs compared with sequential construction"])

p("C32", "Document information is written exactly",
  "The document information in the file holds exactly the non-empty fields that were set last, with the same characters for every text (also outside the basic plane) and the creation date given; without information set there is none.",
  ["inputs", "programs"], "all strings and dates, set at any point and repeatedly",
  "Tests set ASCII strings and do not read them back.",
  ["gopdf.go", "pdf_info_obj.go"],
  [("info dictionary", "gopdf.go: writeInfo, encodeUtf8, infodate")],
  ["info dictionary of the output"])

p("C33", "Missing characters are reported and replaced, never corrupt the text",
  "For each character the font does not have, the not-found callback is called and the substitute character is shown in its place, with width, position and extraction those of the substitute; the other characters are unaffected. Asking whether the font has a character answers according to the font.",
  ["inputs", "configurations"], "all texts mixing present and missing characters, with default and custom callbacks",
  "Tests use one text with the default callback.",
  ["subset_font_obj.go", "gopdf.go"],
  [("substitution", "subset_font_obj.go: AddChars, replaceGlyphThatNotFound; gopdf.go: IsCurrFontContainGlyph")],
  ["callbacks", "glyphs shown"])

p("C34", "Arabic shaping keeps the letters and is consistent",
  "Shaping a text replaces each Arabic letter by its presentation form (isolated, initial, medial or final) according to the joining behaviour of the letters next to it, also across marks, and turns the text round for display, without losing, inventing or changing the identity of any letter. Texts without Arabic letters are only turned round.",
  ["inputs"], "all strings over Arabic letters, marks, spaces and other characters",
  "Tests sample a few words.",
  ["strhelper.go", "arabic_helper.go", "arabic_alphabet.go"],
  [("shaping", "arabic_helper.go: ToArabic")],
  ["returned strings"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
