prop('C01', 'Exactly the selected pages are converted',
     'Converting, parsing or extracting tables processes exactly the pages selected by the documented rules - start '
     '(inclusive) to end (exclusive, omitted = last page), or the pages listed, which take priority - each once, in document '
     'order, numbered from zero or, on request, from one. Numbers outside the document select nothing, and where no page '
     'is selected nothing is put out. This holds the same way for the Converter methods, the module functions and the '
     'command line.',
     ['inputs', 'configurations'],
     'for all page counts, start/end values and page lists (unordered, repeated, out of range) and all entry points',
     'the tests use a handful of selections; most corner values (empty selections, end=0, repeated or out-of-range pages) '
     'are never tried, and not through every entry point',
     ['pdf2docx/converter.py', 'pdf2docx/main.py'],
     [('page selection', 'Converter._page_indexes, Converter.parse'), ('index base', 'PDF2DOCX.convert, PDF2DOCX.table')],
     'exhaustive enumeration of argument tuples on the real code vs a selection model',
     'Every argument tuple of the bounded space is run on the real API and compared with a reference model of the selection.')

prop('C02', 'Multi-processing gives the same docx as sequential conversion',
     'Converting with multi-processing puts out the same pages with the same content, in the same order, as converting '
     'without it: for every page selection, number of pages and number of processes, and however the pages\' tasks are '
     'distributed over the processes and ordered in time.',
     ['schedules', 'inputs', 'configurations'],
     'for all page counts, page selections, process counts and all assignments/orders of worker tasks',
     'the one multi-processing test runs one document with one cpu count under whatever schedule the machine picks',
     ['pdf2docx/converter.py'],
     [('splitting and merging', 'Converter._parse_and_create_pages_with_multi_processing'), ('per-process parsing',
                                                                           'Converter._parse_pages_per_cpu')],
     'controlled scheduler: all assignments and orders of worker tasks, vs sequential run',
     'A controlled process pool runs the real tasks under every assignment of tasks to workers and every order; a few runs '
     'use the real pool. Tasks are atomic here (interleavings inside tasks: C03).',
     state=[('vectors', 'page indexes split over processes', 'Converter._parse_and_create_pages_with_multi_processing')])

prop('C03', 'Conversions running at the same time do not disturb each other',
     'Two conversions that run at the same time in the same working directory, with or without multi-processing, of the '
     'same or of different PDF files, each give the document they give when run alone. No intermediate file is left in '
     'the working directory or in the folder for temporary files, and files already there are neither changed nor lost.',
     ['schedules'],
     'for all interleavings of the file-system operations of two conversions up to a preemption bound',
     'no test runs two conversions at a time, and the order of file operations is left to chance',
     ['pdf2docx/converter.py', 'pdf2docx/image/ImagesExtractor.py'],
     [('intermediate files', 'Converter._parse_and_create_pages_with_multi_processing')],
     'stateless exploration of interleavings of real processes, stopped at every file-system operation',
     'Real processes are stepped from file operation to file operation; all interleavings up to 1 (quick) or 2 (thorough) '
     'preemptions. Granularity: operations visible to the interpreter\'s audit events; two conversions.')

prop('C06', 'What a page becomes does not depend on the other pages converted with it',
     'A page of a document is converted to the same section - page size, blocks, text, styles, tables, pictures, positions '
     '- whichever pages come before or after it, as when it is the only page of its document.',
     ['inputs', 'histories'],
     'for all sequences of page kinds up to a bounded length',
     'each sample of the tests is converted as a whole; a leak between pages needs a particular pair of pages',
     ['pdf2docx/page/Page.py', 'pdf2docx/page/RawPage.py', 'pdf2docx/common/Element.py', 'pdf2docx/converter.py'],
     [('per-page state', 'Page.parse, RawPage'), ('rotation matrix of elements', 'Element.set_rotation_matrix')],
     'exhaustive enumeration of page sequences on the real code vs each page alone',
     'All ordered pairs (thorough: triples) over a gallery of page kinds are converted and compared, section by section, '
     'with each page converted alone in a fresh process; and documents of 5 pages taken from the families of pages of the other checks.',
     state=[('ROTATION_MATRIX', 'class-wide rotation of the page parsed last', 'common/Element.py')])

prop('C07', 'Storing and restoring a parsed layout loses nothing',
     'A document made from a parsed layout that was stored (serialized, or written to and read from a JSON file) and '
     'restored into a new converter is the same as the document made from the parsed layout directly, and storing the '
     'restored layout again gives the same data.',
     ['inputs', 'histories'],
     'for all kinds of pages, all combinations of page parts, and single- and multi-page documents',
     'the tests only compare text and style of some samples through a file, not what docx a restored layout gives',
     ['pdf2docx/converter.py', 'pdf2docx/page/Page.py', 'pdf2docx/table', 'pdf2docx/text',
      'pdf2docx/image', 'pdf2docx/shape'],
     [('serialization', 'store() methods'), ('deserialization', 'restore() methods, Converter.restore')],
     'exhaustive enumeration of page kinds and combinations of parts: direct run vs store/restore/make run',
     'The real store/restore/make_docx chain is run for each page kind and each subset of page parts and compared with '
     'the direct conversion.')

prop('C04', 'A page that cannot be converted does not affect the other pages',
     'Whatever goes wrong while one page is parsed or put out - any exception, at any point, or broken picture data in the '
     'file - every other page appears in the docx, or in the extracted tables, exactly as without that page failing, in '
     'order; the failing page contributes at most one section, and the same converter converts properly afterwards. Only '
     'if no page at all can be parsed is an error raised, and then an earlier output file stays as it was.',
     ['fault_sequences', 'inputs'],
     'for all points of failure in the conversion of a page, all exception types listed, all subsets of failing pages',
     'no test makes a page fail, and there are thousands of points at which one can',
     ['pdf2docx/converter.py', 'pdf2docx/page/Page.py', 'pdf2docx/image/ImagesExtractor.py'],
     [('errors of single pages', 'Converter.parse, Converter.make_docx'), ('unfinished pages', 'Page.finalized')],
     'exhaustive fault injection at every call of the conversion of a page, vs the fault-free run',
     'Fault enumeration: one fault per run at each call made by the converter while one page of three is processed (quick: '
     'one call per calling file and callee), all 27 combinations of failing pages with 14 exception types, and every subset '
     'of really broken pages.', level='fault_enumeration')

prop('C05', 'What a converter puts out does not depend on what it was used for before',
     'However a converter was used before - parsing, converting, extracting tables, debugging a page, storing and restoring, '
     'with any pages and settings - and whatever other documents were converted in the same process, converting or '
     'extracting tables gives the same as a new converter asked for the same thing. Making a docx puts out the pages parsed since, each as parsed last.',
     ['histories'],
     'for all sequences of operations on one converter up to a bounded length',
     'each test uses a new converter for one or two calls; state left in pages, layouts and classes shows only in particular '
     'sequences',
     ['pdf2docx/converter.py', 'pdf2docx/page/Page.py', 'pdf2docx/page/Layout.py', 'pdf2docx/common/Element.py'],
     [('state of a converter', 'Converter._pages, Page.finalized'), ('parsing a page again', 'Page.parse, Page.reset')],
     'exhaustive enumeration of operation sequences on the real code vs a model',
     'All sequences up to 3 (thorough 4) operations are run; each output is compared with the one of a new converter in a '
     'fresh process. One three-page document; besides, all pairs of one-page documents of 22 kinds.',
     state=[('pages', 'raw, parsed, restored pages of the document', 'Converter._pages'),
            ('finalized', 'the page can be put out', 'Page.finalized')])

prop('C08', 'Only the requested files are written, where they are expected',
     'Converting writes one docx file: the given one, or else the one next to the PDF named like it with the extension .docx; '
     'a debug run writes the debug PDF and the layout file besides, serializing the named file, and parsing or extracting '
     'tables nothing. An existing output is replaced; the PDF and all other files stay as they are, and no temporary file is '
     'left, whatever the name and folder of the PDF.',
     ['inputs', 'configurations'],
     'for all file names, folders, relative and absolute paths, and entry points listed',
     'the tests use plain names and given outputs, and do not look at what else is written',
     ['pdf2docx/converter.py', 'pdf2docx/main.py', 'pdf2docx/image/ImagesExtractor.py'],
     [('default names', 'Converter.make_docx, Converter.debug_page'), ('intermediate files',
                                                                     'multi-processing in Converter')],
     'exhaustive enumeration of names x folders x entry points on the real code vs a model of the file tree',
     'Every combination is run in a scratch folder whose complete content, and that of the temporary folder, is compared '
     'before and after.', observe=['the file system'])

prop('C09', 'Every word of a page is put out once, whole and in reading order',
     'Each word of a page\'s text is in the docx exactly once, with its characters unchanged and words kept apart as on the '
     'page; within a text line, a paragraph or a column the words come in reading order. This holds for any spacing, wrapping, '
     'alignment, rotation of the page, mix of page parts and font, and for glyphs that map to characters not allowed in a docx '
     '(only those characters may be dropped or replaced).',
     ['inputs'],
     'for all arrangements of words, row ends, distances, page parts and characters within the bounds',
     'the samples of the tests contain some arrangements; text is lost or doubled only for particular ones',
     ['pdf2docx/text', 'pdf2docx/page', 'pdf2docx/common/share.py'],
     [('lines to blocks', 'Lines, Line, Blocks'), ('columns and tables around text', 'Layout, TablesConstructor'),
      ('joining rows', 'Lines.make_docx')],
     'exhaustive enumeration of page layouts on the real code vs the words drawn',
     'All layouts of seven bounded families (word grids, part subsets, wrapped paragraphs, base-line patterns, leadings, '
     'turned pages, character sets) are converted and the words compared with those drawn.')

prop('C10', 'A ruled table is rebuilt as drawn: rows, columns, merged cells, sizes',
     'A table drawn with border lines becomes one table with exactly the drawn cells - the same rows and columns, and cells '
     'merged where lines are missing - with the row heights and column widths as drawn (within 0.75 pt). It does not matter '
     'whether borders are drawn as long lines, pieces, thin filled rectangles, polygons or a rectangle per cell, in which '
     'order or direction, in one path or many, in which colour space or coordinate system, how thick, or where on the page.',
     ['inputs'],
     'for all ways to cut a grid into cells, all ways to draw it, line widths, sizes and places within the bounds',
     'the samples contain a few tables; merging logic depends on the exact pattern of missing lines',
     ['pdf2docx/table', 'pdf2docx/shape'],
     [('lines to cells', 'TableStructure, Border'), ('table detection', 'TablesConstructor'), ('merged cells',
                                                                                             'Cell.merged_cells')],
     'exhaustive enumeration of all rectangle tilings of a grid x drawing styles on the real code vs the tiling',
     'Every partition of grids up to 3x3 (thorough: 4x4) into rectangles is drawn and the docx table compared cell by cell.')

prop('C21', 'A debug run only observes',
     'Debugging a page gives the docx and the layout file that a normal run with the same settings gives for that page, '
     'writes a debug PDF with pages of the size of the page, and does not change the PDF.',
     ['inputs', 'configurations'],
     'for all kinds of pages and combinations of page parts, with default and other settings',
     'the tests never compare debug and normal runs',
     ['pdf2docx/common/share.py', 'pdf2docx/page/Page.py', 'pdf2docx/converter.py'],
     [('debug plotting', 'share.debug_plot'), ('debug run', 'Converter.debug_page')],
     'exhaustive enumeration of page kinds and part subsets: debug run vs normal run of the real code',
     'Every page kind and part subset is converted both ways and compared.',
     observe=['docx, layout JSON and debug PDF of Converter.debug_page'])

prop('C23', 'A converter is the sequence of the document\'s pages',
     'A converter has as many pages as the document; indexing (also negative), slicing (with any start, stop and step) and '
     'iterating give the pages like a list of them does, and an index out of range raises IndexError.',
     ['inputs'],
     'for all indexes and slices around the page counts',
     'the tests index a few pages',
     ['pdf2docx/converter.py'],
     [('sequence protocol', 'Converter.__getitem__, Converter.__len__')],
     'exhaustive enumeration of indexes and slices on the real code vs a list',
     'All indexes and slices within bounds are compared with a Python list of the pages.',
     observe=['Converter[...], len(Converter), iteration'])

prop('C11', 'Table contents are in their cells, and extracted tables agree with the docx',
     'What is drawn inside a cell of a ruled table - words, lines, paragraphs, pictures, an inner table - is in exactly that '
     'cell of the docx table; empty cells are empty, and nothing of a cell appears outside the table or twice. Extracting '
     'tables gives, for each ruled table of the selected pages, the rows of cell texts of that table, with None for cells '
     'merged into another one.',
     ['inputs'],
     'for all ways to cut bounded grids into cells, positions of text in cells, subsets of empty cells and kinds of contents',
     'the tests compare the cells of some sample tables; assigning contents depends on the pattern of cells and where in '
     'them the text is',
     ['pdf2docx/table', 'pdf2docx/page/Page.py', 'pdf2docx/page/Blocks.py'],
     [('contents of cells', 'Cell.assign_blocks, Blocks.assign_to_tables'), ('extraction', 'Page.extract_tables'),
      ('text of a table', 'TableBlock.text, Cell.text')],
     'exhaustive enumeration of tilings x contents on the real code vs the cells drawn',
     'Every partition of grids up to 3x3 with texts at varying places, every subset of empty cells, and combinations of seven '
     'kinds of contents; docx cells and extracted rows are both compared with what was drawn.',
     observe=['the produced .docx (its XML)', 'Converter.extract_tables, parse.table'])

prop('C13', 'Text keeps its style, and marks cover exactly the marked characters',
     'Each character keeps its font family, size (within 0.25 pt), bold and italic face and colour, whichever text operators '
     'show it; text raised above the line (by more than a tenth of its size) is superscript. Underline, strike-through, '
     'highlight and web links drawn over some characters of a line are on exactly these characters, in the colour or with '
     'the address drawn, whatever other marks they overlap with, and wherever the line is in its paragraph.',
     ['inputs'],
     'for all ranges of characters, kinds of marks, pairs of marks, and the fonts, sizes, colours and ways of showing text listed',
     'the tests check a few marks of samples; splitting text at marks depends on where they start, end and overlap',
     ['pdf2docx/text/TextSpan.py', 'pdf2docx/text/Lines.py', 'pdf2docx/text/Char.py', 'pdf2docx/shape/Shape.py',
      'pdf2docx/shape/Shapes.py', 'pdf2docx/page/Layout.py', 'pdf2docx/common/docx.py'],
     [('splitting text', 'TextSpan.split, TextSpan._parse_text_format'), ('kinds of marks', 'Shapes.detect_initial_categories, '
       'Shape.semantic_type'), ('writing runs', 'TextSpan.make_docx')],
     'exhaustive enumeration of mark ranges, pairs of marks and styles on the real code vs what was drawn',
     'Every range of characters x kind of mark x place in the paragraph, every way to draw a mark by PDF operators, every pair '
     'of marks on a short line, pairs of fonts, sizes and colours, 14 ways to show text, raised text, and names of fonts.')

prop('C14', 'Pictures and drawings are in the docx, once each, as they look on the page',
     'Every picture of a page - whatever its colour space, bit depth, mask (of any resolution), stencil, orientation (turned, '
     'mirrored), page rotation, and whether it is an XObject, an inline picture or part of a form - appears exactly once in the '
     'docx for each time it is drawn, in its displayed size and orientation, at its place, in the flow or floating; pictures '
     'that are alike in size, data or place stay apart; a drawing of curves appears as one picture that shows that part of the '
     'page; and neither pictures nor drawings make words or tables disappear or appear twice.',
     ['inputs'],
     'for all formats, masks, orientations, page rotations, sets of up to 3 (thorough 4) places, pairs of similar pictures, '
     'drawings in combination with other elements, page sizes, and places around rows of text in the bounds',
     'the tests look at one sample with pictures and compare positions only; which picture is lost, doubled, mirrored or moved '
     'depends on combinations of format, neighbours, and distances',
     ['pdf2docx/image', 'pdf2docx/shape/Paths.py', 'pdf2docx/page/RawPage.py', 'pdf2docx/page/Blocks.py',
      'pdf2docx/common/docx.py'],
     [('pictures', 'ImagesExtractor.extract_images'), ('drawings', 'Paths.to_shapes_and_images, ImagesExtractor.detect_svg_contours'),
      ('floating', 'Blocks.identify_floating_images'), ('output', 'common/docx.py add_image, add_float_image')],
     'exhaustive enumeration of pages with pictures on the real code; pixels, sizes and places in the docx compared with what '
     'was drawn',
     'Every page of the bounded families is converted; each picture in the docx is compared pixel by pixel with the picture '
     'generated (drawings: with the rendered part of the page), counted, and located by the renderer of C15. A picture standing '
     'beside words in a row is located coarsely, since a text flow has only one base line.')

prop('C15', 'Everything comes to lie where it is on the page',
     'Laying out the docx - page size and margins, spacing before and between lines, exact row heights, cell widths, '
     'indentations, tab stops, alignment - puts each word, picture and ruled table within 2 pt of where it is drawn on '
     'the page (words: left end, base line and right end as far as the docx decides them), for pages in any rotation and '
     'for pages in two columns; what comes later on the page is not displaced by what is before it, and the contents of a '
     'page take no more than the height of that page.',
     ['inputs'],
     'for all stacks of up to two (thorough: three) of the listed elements at the listed distances, rotations, pages with '
     'columns, shapes of paragraphs of up to three rows (free, centered, justified, turned), grids of words and contents of table cells in the bounds',
     'the tests compare the layout of samples with results stored earlier; positions are accumulated from many spacings, '
     'so that an error shows only for particular neighbours',
     ['pdf2docx/page', 'pdf2docx/text', 'pdf2docx/table', 'pdf2docx/image', 'pdf2docx/common/docx.py'],
     [('vertical spacing', 'Blocks.parse_spacing, TextBlock.parse_line_spacing, Blocks.make_docx'),
      ('horizontal spacing', 'TextBlock.parse_horizontal_spacing'), ('columns of a page', 'TablesConstructor.page_layout_table'),
      ('margins', 'Page.parse margins')],
     'exhaustive enumeration of page layouts on the real code, each docx laid out by a renderer and compared with the page drawn',
     'Every docx of six bounded families of pages is laid out by a small renderer of WordprocessingML and each position is '
     'compared with the drawing; the renderer covers the constructs pdf2docx writes.')

prop('C17', 'Every docx written is a valid document',
     'Whatever is on the pages, the docx is a complete package whose XML is well-formed, whose relations and pictures exist, '
     'whose elements are where the format allows them, and whose attribute values are of the type and range it demands '
     '(integers, colours, sizes, spacing, spans that fill the table grid, a paragraph at the end of each cell); there is one '
     'section for each page, each with positive page size.',
     ['inputs'],
     'for all kinds of pages, part subsets, elements at and over the edges, fonts, tables and repository samples',
     'the tests never validate the XML; a word processor refuses a document for a single wrong value, which only particular '
     'pages produce',
     ['pdf2docx/common/docx.py', 'pdf2docx/text', 'pdf2docx/table', 'pdf2docx/image', 'pdf2docx/page'],
     [('XML written directly', 'common/docx.py'), ('sections', 'Page.make_docx'), ('cells', 'Cell.make_docx')],
     'exhaustive enumeration of pages on the real code, each document checked by a validator of WordprocessingML rules',
     'Every docx of eleven bounded families of pages passes a hand-written validator (structure, types, ranges, relations); '
     'the order of child elements inside property elements is not checked.')

prop('C22', 'Table borders and cell shading keep their width and colour',
     'Each border of a ruled table has the width and colour it is drawn with, on both cells that share it, and each shaded '
     'cell has the colour of its filling; borders not drawn and cells not filled have none; it does not matter by which PDF operators and in which colour space they are drawn (a cell\'s stroked outline may count with twice its line width). Cells shaded side by side without '
     'any border line form a table with the same cells and colours.',
     ['inputs'],
     'for all combinations of line styles of the grid lines, shadings of the cells and missing outer borders within the bounds',
     'the test samples contain a few styles; which line a border gets depends on its neighbours',
     ['pdf2docx/table/TableStructure.py', 'pdf2docx/table/Cell.py', 'pdf2docx/table/Border.py', 'pdf2docx/shape',
      'pdf2docx/common/docx.py'],
     [('borders', 'CellStructure.parse_borders'), ('shading', 'CellStructure.parse_shading'), ('writing', 'Cell._set_style')],
     'exhaustive enumeration of border styles and shadings on the real code vs what was drawn',
     'Every assignment of styles to grid lines, of colours to cells and of missing sides is converted and compared cell by '
     'cell.')

prop('C16', 'The docx depends on what a page displays, not on its rotation, boxes or origin',
     'Two pages that display the same - one plain, the other with its contents turned against the page\'s rotation, in a '
     'larger media box that a crop box cuts to the same part, with another origin of the coordinates, inside form XObjects, '
     'described in another way (inherited attributes, several content streams, corners in any order), or with further '
     'elements out of sight beyond the box - give the same content: text with its style and marks, tables with their cells, '
     'pictures with the same look, page size, and the same places (words and pictures within 2.5 pt).',
     ['inputs'],
     'for all kinds of pages, sets of page parts, rotations, ways to crop, origins and hidden elements within the bounds',
     'the tests have one sample of a rotated page and none with a crop box; each extractor (text, pictures, paths, links) '
     'transforms coordinates on its own',
     ['pdf2docx/page/RawPage.py', 'pdf2docx/common/Element.py', 'pdf2docx/shape/Paths.py',
      'pdf2docx/shape/Path.py', 'pdf2docx/image/ImagesExtractor.py'],
     [('coordinates', 'Element.set_rotation_matrix, Element.pure_rotation_matrix'), ('hyperlinks', 'RawPage hyperlinks'),
      ('pictures', 'ImagesExtractor.extract_images'), ('paths', 'RawPage shapes, Path')],
     'exhaustive enumeration of page geometries on the real code vs the same page in plain geometry',
     'Each kind of page and set of parts is converted plain and in every other geometry within one document, and the two '
     'sections are compared, text by text, cell by cell and place by place.')

prop('C18', 'The order in which a page emits its elements does not matter',
     'Pages that differ only in the order in which their content stream draws elements that do not cover each other - rows '
     'of text, words of a row, lines of tables and marks, fillings, pictures, drawings - give the same content: text in '
     'reading order with its style and marks, words kept apart, tables with their cells, pictures, and all at the same '
     'places. (How rows are grouped into paragraphs follows the PDF.)',
     ['inputs'],
     'for all orders of up to 4 (thorough 5) elements, orders one or two moves away for more, and all orders of page parts',
     'each test sample has one order; sorting, joining and grouping of lines, borders and shapes depend on the order in '
     'which they come',
     ['pdf2docx/common/Collection.py', 'pdf2docx/page/Blocks.py', 'pdf2docx/text/Lines.py', 'pdf2docx/table',
      'pdf2docx/shape/Shapes.py'],
     [('sorting', 'Collection.sort_in_reading_order, Lines.sort'), ('grouping', 'Collection.group'),
      ('joining', 'Lines.join, Blocks.join')],
     'exhaustive enumeration of permutations of the drawing operations on the real code vs one order',
     'Every permutation in the bounds is converted within one document with the page in reading order, and the two sections '
     'are compared, text by text, cell by cell and place by place.')

prop('C19', 'Documented parameters have their documented effect, at the value given',
     'max_border_width, min_border_clearance, connected_border_tolerance, float_image_ignorable_gap, page_margin_factor_top '
     'and _bottom, shape_min_dimension, line_overlap_threshold, line_free_space_ratio_threshold, line_merging_threshold, '
     'line_separate_threshold, lines_left/right/center_aligned_threshold, clip_image_res_ratio, curve_path_ratio and '
     'extract_stream_table do what the documentation says: what lies clearly below the given value is treated in one way and '
     'what lies clearly above it in the other (or, for factors, the result is that multiple), for each value given, and the '
     'same whether the value comes by convert(), parse(), the command line functions, the debug entry, worker processes, or '
     'after a conversion with another value.',
     ['inputs', 'histories'],
     'for all parameters, values, distances on both sides of the value and entry points within the bounds',
     'the tests use default values but for one; each parameter passes several functions before it is used',
     ['pdf2docx/page/Page.py', 'pdf2docx/page/Layout.py', 'pdf2docx/page/Blocks.py', 'pdf2docx/shape/Shapes.py',
      'pdf2docx/table/TablesConstructor.py', 'pdf2docx/text/TextBlock.py', 'pdf2docx/text/Lines.py', 'pdf2docx/converter.py'],
     [('defaults and update', 'Page.init_settings'), ('passing on', 'Layout.parse, Layout.clean_up'),
      ('entries', 'Converter.convert, PDF2DOCX.convert')],
     'exhaustive enumeration of parameters, values and distances on the real code vs the documented effect',
     'Pages whose one distance lies on a known side of the value given are converted for every parameter, value, distance and '
     'way to draw it, and the docx must show the documented side.')
