From 6972a5bc0a9db37ccfc0fefd5e386eb7a8221c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 01/70] fix: parse no page, instead of all pages, when the
 selection of pages is empty

---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index beb5d25..7af2e5e 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -72,7 +72,7 @@ class Converter:
         Returns:
             Converter: self
         """        
-        indexes = page_indexes if page_indexes else range(len(self._pages))
+        indexes = range(len(self._pages)) if page_indexes is None else page_indexes
         num_pages = len(indexes)
         for i, idx in enumerate(indexes, start=1):
             print(f'\rParsing Page {idx+1}: {i}/{num_pages}...', end='', flush=True)
-- 
2.43.0


From afdaf72501c76fa0a15ccc03475ef6062413791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 02/70] fix: an end page of 0 is the excluded first page, not
 the end of the document

---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 7af2e5e..2c08cf9 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -348,7 +348,7 @@ class Converter:
         if pages: 
             indexes = [int(x) for x in pages if 0<=x<pdf_len]
         else:
-            end = end or pdf_len
+            end = pdf_len if end is None else end
             s = slice(int(start), int(end))
             indexes = range(pdf_len)[s]
         
-- 
2.43.0


From 89443b7bf9813965f964d7bf7fa4ce62357ad770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 03/70] fix: convert only the selected pages with
 multi-processing

---
 pdf2docx/converter.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 2c08cf9..af0c3ec 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -288,9 +288,9 @@ class Converter:
         '''
         # make vectors of arguments for the processes
         cpu = min(kwargs['cpu_count'], cpu_count()) if 'cpu_count' in kwargs else cpu_count()
-        start, end = min(page_indexes), max(page_indexes)
+        page_indexes = list(page_indexes)
         prefix = 'pages' # json file writing parsed pages per process
-        vectors = [(i, cpu, start, end, self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
+        vectors = [(i, cpu, page_indexes, self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
 
         # start parsing processes
         pool = Pool()
@@ -315,19 +315,18 @@ class Converter:
             vector (list): A list containing required parameters.
                 * 0  : segment number for current process                
                 * 1  : count of CPUs
-                * 2,3: whole pages range to process since sometimes need only parts of pdf pages                
-                * 4  : pdf filename
-                * 5  : configuration parameters
-                * 6  : json filename storing parsed results
+                * 2  : indexes of all pages to process since sometimes need only parts of pdf pages
+                * 3  : pdf filename
+                * 4  : configuration parameters
+                * 5  : json filename storing parsed results
         '''
         # recreate the arguments
-        idx, cpu, s, e, pdf_filename, kwargs, json_filename = vector
+        idx, cpu, all_indexes, pdf_filename, kwargs, json_filename = vector
 
         # worker
         cv = Converter(pdf_filename)
 
         # all pages to process
-        all_indexes = range(s, e+1)
         num_pages = len(all_indexes)
 
         # pages per segment
-- 
2.43.0


From ee234d9dd4fead8d9213d419a224eacbc5332b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 04/70] fix: parse a page again from a new layout, without the
 leftovers of the previous one

---
 pdf2docx/page/Page.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pdf2docx/page/Page.py b/pdf2docx/page/Page.py
index 22a7629..3157944 100644
--- a/pdf2docx/page/Page.py
+++ b/pdf2docx/page/Page.py
@@ -140,8 +140,18 @@ class Page(RawPage):
         return self
 
 
+    def reset(self):
+        '''Discard parsed layout, if any.'''
+        self.layout = Layout(parent=self)
+        self._finalized = False
+        return self
+
+
     def parse(self, settings:dict=None):
         '''Parse page layout.'''
+        # forget what was parsed before
+        self.reset()
+
         # update parameters
         self.settings = self.init_settings(settings)
 
-- 
2.43.0


From 1267b9e145e96b6649eae8f56f0c7e767f2c8e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 05/70] fix: keep floating images when restoring a parsed
 layout

---
 pdf2docx/page/Blocks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 45d7685..2a68cb3 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -101,6 +101,7 @@ class Blocks(Collection):
             Blocks: self
         '''
         self.reset()  # clean current instances
+        self.floating_image_blocks = []
         for raw_block in raws:
             block_type = raw_block.get('type', -1) # type: int
             
@@ -116,6 +117,8 @@ class Blocks(Collection):
             elif block_type == BlockType.FLOAT_IMAGE.value:
                 block = ImageBlock(raw_block)
                 block.set_float_image_block()
+                self.floating_image_blocks.append(block)
+                continue # not in the flow layout
 
             # table block
             elif block_type in (BlockType.LATTICE_TABLE.value, BlockType.STREAM_TABLE.value):
-- 
2.43.0


From 4497d0c5d97a646558d86da4fb99d1130da1ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 06/70] fix: keep the type of stream tables when restoring a
 parsed layout

---
 pdf2docx/table/TableBlock.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/table/TableBlock.py b/pdf2docx/table/TableBlock.py
index 51f2476..039144e 100644
--- a/pdf2docx/table/TableBlock.py
+++ b/pdf2docx/table/TableBlock.py
@@ -35,6 +35,7 @@ from .Row import Row
 from .Rows import Rows
 from ..common.Block import Block
 from ..common import docx
+from ..common.share import BlockType
 
 
 class TableBlock(Block):
@@ -47,7 +48,10 @@ class TableBlock(Block):
         self._rows = Rows(parent=self).restore(raw.get('rows', []))
 
         # lattice table by default
-        self.set_lattice_table_block()
+        if raw.get('type', -1)==BlockType.STREAM_TABLE.value:
+            self.set_stream_table_block()
+        else:
+            self.set_lattice_table_block()
 
     def __getitem__(self, idx):
         try:
-- 
2.43.0


From bb4dbb6ea5f3bddc55f40b1a38a48c9861361c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 07/70] fix: extract tables from the specified pages only, not
 from pages parsed earlier

---
 pdf2docx/converter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index af0c3ec..7950550 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -258,9 +258,10 @@ class Converter:
         # process page by page
         self.parse(page_indexes, kwargs)
 
-        # get parsed tables
+        # get parsed tables from these pages only
         tables = []
-        for page in self._pages:
+        for i in sorted(set(page_indexes)):
+            page = self._pages[i]
             if page.finalized: tables.extend(page.extract_tables())
         return tables
 
-- 
2.43.0


From 7adc93827dc6db2e39762012c97059fafebd2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 08/70] fix: convert the specified pages only, not pages parsed
 earlier

---
 pdf2docx/converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 7950550..c02685c 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -230,6 +230,9 @@ class Converter:
         # pages to convert
         page_indexes = self._page_indexes(start, end, pages, len(self))
         
+        # the specified pages only, whatever was parsed earlier
+        for page in self._pages: page.reset()
+
         # convert page by page
         t0 = perf_counter()        
         if kwargs.get('multi_processing', False):
-- 
2.43.0


From c849c0d3d6ddd65933eabdffaefa10437003027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 09/70] fix: name the default docx by the extension of the pdf
 file, never overwriting the pdf itself

---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index c02685c..5720d74 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -102,7 +102,7 @@ class Converter:
             raise Exception('No parsed pages. Please parse page first.')
 
         # docx file to convert to        
-        filename = docx_filename if docx_filename else self.filename_pdf.replace('.pdf', '.docx')
+        filename = docx_filename if docx_filename else f'{os.path.splitext(self.filename_pdf)[0]}.docx'
         if os.path.exists(filename): os.remove(filename)
 
         # create page by page
-- 
2.43.0


From 7fd8a95e57c2f568f7ae02d202fdc13b61b09d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 10/70] fix: keep intermediate files of multi-processing in a
 temporary folder

---
 pdf2docx/converter.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 5720d74..2e9075c 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -2,6 +2,8 @@
 
 import os
 import json
+import shutil
+import tempfile
 from time import perf_counter
 from multiprocessing import Pool, cpu_count
 import fitz
@@ -293,19 +295,22 @@ class Converter:
         # make vectors of arguments for the processes
         cpu = min(kwargs['cpu_count'], cpu_count()) if 'cpu_count' in kwargs else cpu_count()
         page_indexes = list(page_indexes)
-        prefix = 'pages' # json file writing parsed pages per process
+        folder = tempfile.mkdtemp(prefix='pdf2docx-') # no conflict with other files or processes
+        prefix = os.path.join(folder, 'pages') # json file writing parsed pages per process
         vectors = [(i, cpu, page_indexes, self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
 
         # start parsing processes
-        pool = Pool()
-        pool.map(self._parse_pages_per_cpu, vectors, 1)
-        
-        # restore parsed page data
-        for i in range(cpu):
-            filename = f'{prefix}-{i}.json'
-            if not os.path.exists(filename): continue            
-            self.deserialize(filename)
-            os.remove(filename)
+        try:
+            pool = Pool()
+            pool.map(self._parse_pages_per_cpu, vectors, 1)
+
+            # restore parsed page data
+            for i in range(cpu):
+                filename = f'{prefix}-{i}.json'
+                if not os.path.exists(filename): continue
+                self.deserialize(filename)
+        finally:
+            shutil.rmtree(folder, ignore_errors=True)
         
         # create docx file
         self.make_docx(docx_filename)
-- 
2.43.0


From 3cdc3ce533d9d275ba033670c38ef709967cd0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 11/70] fix: slice pages with negative indexes like any other
 sequence

---
 pdf2docx/converter.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 2e9075c..f74b33e 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -34,14 +34,8 @@ class Converter:
 
 
     def __getitem__(self, index):
-        num = self._fitz_doc.pageCount
         if isinstance(index, slice):
-            if index.stop is None or index.stop > num:
-                stop = num
-            else:
-                stop = index.stop
-            pages = [self._pages[i] for i in range(stop)]
-            return pages[index]
+            return self._pages[index]
         else:
             try:
                 page = self._pages[index]
-- 
2.43.0


From e695145e195fe8ded756363e6f84a4916ab78115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 12/70] fix: set page contents back after hiding text for
 clipping images

---
 pdf2docx/image/ImagesExtractor.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 43012f3..907c645 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -94,7 +94,7 @@ class ImagesExtractor:
         images = []
         for group in groups:
             bbox = group.bbox
-            pix = page.getPixmap(clip=bbox, matrix=fitz.Matrix(clip_image_res_ratio, clip_image_res_ratio))
+            pix = cls._clip_page(page, bbox, zoom=clip_image_res_ratio)
             raw_dict = cls._to_raw_dict(pix, bbox)
             images.append(raw_dict)
         
@@ -169,6 +169,9 @@ class ImagesExtractor:
 
         Args:
             page (fitz.Page): pdf page to extract.
+
+        Returns:
+            dict: The original content streams, to set back after clipping.
         """
         # render Tr: set the text rendering mode
         # - 3: neither fill nor stroke the text -> invisible
@@ -176,11 +179,14 @@ class ImagesExtractor:
         # - https://github.com/pymupdf/PyMuPDF/issues/257
         # - https://www.adobe.com/content/dam/acom/en/devnet/pdf/pdfs/pdf_reference_archives/PDFReference.pdf
         doc = page.parent
+        streams = {}
         for xref in page.get_contents():
-            stream = doc.xrefStream(xref).replace(b'BT', b'BT 3 Tr') \
+            streams[xref] = doc.xrefStream(xref)
+            stream = streams[xref].replace(b'BT', b'BT 3 Tr') \
                                              .replace(b'Tm', b'Tm 3 Tr') \
                                              .replace(b'Td', b'Td 3 Tr')
             doc.updateStream(xref, stream)
+        return streams
 
 
     @classmethod
@@ -195,14 +201,17 @@ class ImagesExtractor:
         Returns:
             fitz.Pixmap: The extracted pixmap.
         """        
-        # hide text 
-        cls._hide_page_text(page)
+        # hide text temporarily
+        streams = cls._hide_page_text(page)
         
         # improve resolution
         # - https://pymupdf.readthedocs.io/en/latest/faq.html#how-to-increase-image-resolution
         # - https://github.com/pymupdf/PyMuPDF/issues/181
         bbox = page.rect if bbox is None else bbox & page.rect
-        return page.getPixmap(clip=bbox, matrix=fitz.Matrix(zoom, zoom)) # type: fitz.Pixmap
+        try:
+            return page.getPixmap(clip=bbox, matrix=fitz.Matrix(zoom, zoom)) # type: fitz.Pixmap
+        finally:
+            for xref, stream in streams.items(): page.parent.updateStream(xref, stream)
 
    
     @staticmethod
-- 
2.43.0


From 8004a92e82b63f36754ea61eba534f3b90455c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 13/70] fix: do not apply the rotation of the last parsed page
 to restored layouts

---
 pdf2docx/page/Page.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/page/Page.py b/pdf2docx/page/Page.py
index 3157944..a73b2b8 100644
--- a/pdf2docx/page/Page.py
+++ b/pdf2docx/page/Page.py
@@ -26,10 +26,12 @@ some new features are also included, e.g.
 
 '''
 
+import fitz
 from docx.shared import Pt
 from docx.enum.section import WD_SECTION
 from ..common.share import debug_plot
 from ..common import constants
+from ..common.Element import Element
 from .RawPage import RawPage
 from .Layout import Layout
 
@@ -221,7 +223,11 @@ class Page(RawPage):
     @debug_plot('Source Text Blocks')
     def _load_source(self):
         '''Initialize layout extracted with ``PyMuPDF``.'''
-        self.restore(self.raw_dict)
+        try:
+            self.restore(self.raw_dict)
+        finally:
+            # the rotation applies to source data of this page only
+            Element.set_rotation_matrix(fitz.Matrix(0.0))
         self._finalized = False  # just restored from raw dict, not parsed yet
         return self.layout.blocks
     
-- 
2.43.0


From ea38c6ff365108b259b2625ae27a314d26110f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 14/70] fix: bring drawings, images and vector graphics of
 rotated pages into the same coordinate system

---
 pdf2docx/image/ImagesExtractor.py |  6 ++++--
 pdf2docx/page/RawPage.py          | 29 +++++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 907c645..aadfaff 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -62,7 +62,8 @@ class ImagesExtractor:
             if not pix.colorspace:
                 pix = cls._clip_page(page, bbox, zoom=clip_image_res_ratio)
 
-            raw_dict = cls._to_raw_dict(pix, bbox)
+            # raw data is relative to un-rotated page
+            raw_dict = cls._to_raw_dict(pix, bbox*page.derotationMatrix)
             images.append(raw_dict)
         return images
     
@@ -95,7 +96,8 @@ class ImagesExtractor:
         for group in groups:
             bbox = group.bbox
             pix = cls._clip_page(page, bbox, zoom=clip_image_res_ratio)
-            raw_dict = cls._to_raw_dict(pix, bbox)
+            # raw data is relative to un-rotated page
+            raw_dict = cls._to_raw_dict(pix, bbox*page.derotationMatrix)
             images.append(raw_dict)
         
         return images
diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 8fb5a86..3ff7a33 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -21,6 +21,7 @@ In addition to the raw layout dict, rectangle shapes are also included.
 '''
 
 from collections import defaultdict
+import fitz
 from ..image.ImagesExtractor import ImagesExtractor
 from ..shape.Paths import Paths
 from ..common.Element import Element
@@ -127,7 +128,7 @@ class RawPage:
     def _preprocess_shapes(self, raw):
         '''Identify iso-oriented paths and convert vector graphic paths to pixmap.'''
         # extract paths ed by `page.getDrawings()`
-        raw_paths = self.fitz_page.getDrawings()
+        raw_paths = self._get_drawings(self.fitz_page)
 
         # iso-oriented paths to shapes
         paths = Paths(parent=self).restore(raw_paths)
@@ -137,7 +138,8 @@ class RawPage:
         # vector graphics (curved paths in general) to images
         if exist_svg:
             excluding_areas = iso_areas
-            excluding_areas.extend([block['bbox'] for block in raw['blocks'] if block['type']==1]) # normal images
+            excluding_areas.extend([fitz.Rect(block['bbox'])*self.fitz_page.rotationMatrix
+                for block in raw['blocks'] if block['type']==1]) # normal images
             images = ImagesExtractor.extract_vector_graphics(
                 self.fitz_page, excluding_areas, self.settings['clip_image_res_ratio'])
             raw['blocks'].extend(images)
@@ -149,6 +151,29 @@ class RawPage:
         return paths
     
 
+    @staticmethod
+    def _get_drawings(page):
+        '''Get paths with ``page.getDrawings()``, in real page CS. 
+
+        Whether these coordinates consider page rotation depends on the version of ``PyMuPDF``,
+        so get them from the un-rotated page and apply the rotation explicitly.
+        '''
+        rotation, matrix = page.rotation, page.rotationMatrix
+        if not rotation: return page.getDrawings()
+
+        page.setRotation(0)
+        try:
+            raw_paths = page.getDrawings()
+        finally:
+            page.setRotation(rotation)
+
+        for path in raw_paths:
+            path['items'] = [(item[0],) + tuple(
+                x*matrix if isinstance(x, (fitz.Point, fitz.Rect, fitz.Quad)) else x 
+                    for x in item[1:]) for item in path['items']]
+        return raw_paths
+
+
     @staticmethod
     def _preprocess_hyperlinks(page):
         """Get source hyperlink dicts.
-- 
2.43.0


From 199dac88edc5a5cbe4d8f0b62e8bda400210cfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 15/70] fix: keep words of adjacent rows apart in a paragraph

---
 pdf2docx/text/Line.py  | 21 +++++++++++++++++++++
 pdf2docx/text/Lines.py |  7 +++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/Line.py b/pdf2docx/text/Line.py
index 825a2f9..2c87743 100644
--- a/pdf2docx/text/Line.py
+++ b/pdf2docx/text/Line.py
@@ -14,11 +14,13 @@ Data structure of line in text block referring to this
     }
 '''
 
+import unicodedata
 from fitz import Point
 from collections import Iterable
 from ..common.Element import Element
 from ..common.share import TextDirection
 from .Spans import Spans
+from .TextSpan import TextSpan
 from ..image.ImageSpan import ImageSpan
 
 
@@ -175,6 +177,25 @@ class Line(Element):
         return line
 
 
+    def is_word_separated(self, line):
+        '''Whether a blank is required between this line and the next line, i.e. the end of this line 
+        and the start of next line are different words, with neither a line break nor a blank between.
+
+        .. note::
+            No blanks between words of East Asian languages, or after a hyphen at the end of line.
+        '''
+        if self.line_break: return False
+
+        def is_word(span, idx):
+            if not isinstance(span, TextSpan) or not span.text: return False
+            c = span.text[idx]
+            return not c.isspace() and unicodedata.east_asian_width(c) not in ('W', 'F')
+
+        if not self.spans or not line.spans: return False
+        last, first = self.spans[-1], line.spans[0]
+        return is_word(last, -1) and is_word(first, 0) and not last.text.endswith('-')
+
+
     def make_docx(self, p):
         '''Create docx line, i.e. a run in ``python-docx``.'''
         for span in self.spans: span.make_docx(p)
diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 7c6df23..3771dcf 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -353,7 +353,10 @@ class Lines(Collection):
 
             # update stop position            
             if line==self._instances[-1]: break
-            if line.in_same_row(self._instances[i+1]):
+            next_line = self._instances[i+1]
+            if line.in_same_row(next_line):
                 current_pos = pos + abs(line.bbox[idx1]-block.bbox[idx0])
             else:
-                current_pos = block.left_space
\ No newline at end of file
+                current_pos = block.left_space
+                # the rows run on in one paragraph: keep words of adjacent rows apart
+                if line.is_word_separated(next_line): p.add_run(' ')
\ No newline at end of file
-- 
2.43.0


From c4ab166365c7a09204bfd731881a329cdd53a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 16/70] fix: do not lose quads, e.g. rotated rectangles, when
 collecting paths

---
 pdf2docx/shape/Path.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 7b9bd4c..14f114e 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -15,6 +15,7 @@ Data structure based on results of ``page.getDrawings()``::
             ("l", p1, p2),         # a line from p1 to p2
             ("c", p1, p2, p3, p4), # cubic Bézier curve from p1 to p4, p2 and p3 are the control points
             ("re", rect),          # a rect
+            ("qu", quad),          # a quad
         ],
         ...
     }
@@ -236,6 +237,19 @@ class Path:
         segments, segments_list = [], []
         cursor = None
         for item in items:
+            # quad: four connected lines as a separate segments group
+            if item[0] == 'qu':
+                # close current segments
+                if segments:
+                    segments_list.append(segments)
+                    segments = []
+                # add lines connecting the corner points
+                quad = item[1]
+                points = [quad.ul, quad.ur, quad.lr, quad.ll, quad.ul]
+                segments_list.append(
+                    [('l', points[i], points[i+1]) for i in range(4)])
+                continue
+
             # line or curve segment
             if item[0] in ('l', 'c'):
                 start, end = item[1], item[-1]
@@ -350,6 +364,8 @@ class Path:
                 canvas.drawRect(item[1])
             elif item[0] == "c":  # curve
                 canvas.drawBezier(item[1], item[2], item[3], item[4])
+            elif item[0] == "qu":  # quad
+                canvas.drawQuad(item[1])
 
         # now apply the common properties to finish the path
         canvas.finish(
-- 
2.43.0


From 3bc59591b2a837ad4d6d40f20d0039ef6fb8f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 17/70] fix: rectangles apart from each other do not intersect

---
 pdf2docx/common/Collection.py     |  2 +-
 pdf2docx/common/Element.py        |  4 ++--
 pdf2docx/common/share.py          | 13 +++++++++++++
 pdf2docx/image/ImagesExtractor.py |  4 ++--
 pdf2docx/table/Cell.py            |  5 +++--
 pdf2docx/text/Lines.py            |  4 ++--
 pdf2docx/text/TextSpan.py         |  2 +-
 7 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/pdf2docx/common/Collection.py b/pdf2docx/common/Collection.py
index 83e803d..21bcaa3 100644
--- a/pdf2docx/common/Collection.py
+++ b/pdf2docx/common/Collection.py
@@ -49,7 +49,7 @@ class BaseCollection:
         Examples 1::
 
             # group instances intersected with each other
-            fun = lambda a,b: a.bbox & b.bbox
+            fun = lambda a,b: intersection(a.bbox, b.bbox)
         
         Examples 2::
 
diff --git a/pdf2docx/common/Element.py b/pdf2docx/common/Element.py
index 306192f..7b93b60 100644
--- a/pdf2docx/common/Element.py
+++ b/pdf2docx/common/Element.py
@@ -18,7 +18,7 @@ CS. If final coordinates are provided, should update it after creating an empty
 
 import copy
 import fitz
-from .share import IText
+from .share import IText, intersection
 from . import constants
 
 
@@ -174,7 +174,7 @@ class Element(IText):
         bbox_2 = e.bbox if hasattr(e, 'bbox') else fitz.Rect(e)
         
         # areas
-        b = bbox_1 & bbox_2
+        b = intersection(bbox_1, bbox_2)
         if not b: return None # no intersection
 
         a1, a2, a = bbox_1.getArea(), bbox_2.getArea(), b.getArea()        
diff --git a/pdf2docx/common/share.py b/pdf2docx/common/share.py
index 37f17a4..a2e1088 100644
--- a/pdf2docx/common/share.py
+++ b/pdf2docx/common/share.py
@@ -4,6 +4,7 @@ from enum import Enum
 import random
 from collections import deque
 from collections.abc import Iterable
+import fitz
 from fitz.utils import getColorList, getColorInfoList
 
 
@@ -111,6 +112,18 @@ def flatten(items, klass):
             yield item
 
 
+def intersection(rect_1, rect_2):
+    '''Intersection of two rectangles, an empty ``fitz.Rect()`` if they're apart from each other.
+    
+    .. note::
+        Regarding two rectangles apart from each other, ``rect_1 & rect_2`` is an invalid rectangle 
+        (``x0>x1`` or ``y0>y1``) rather than an empty one since ``PyMuPDF`` 1.19, so it's not proper 
+        to check the intersection with ``bool(rect_1 & rect_2)``.
+    '''
+    rect = fitz.Rect(rect_1) & rect_2
+    return rect if rect.x0<=rect.x1 and rect.y0<=rect.y1 else fitz.Rect()
+
+
 # -------------------------
 # color methods
 # -------------------------
diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index aadfaff..031c919 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -11,7 +11,7 @@ Both raster images and vector graphics are considered:
 '''
 
 import fitz
-from ..common.share import BlockType
+from ..common.share import BlockType, intersection
 from ..common.Collection import Collection
 from ..common.Element import Element
 
@@ -88,7 +88,7 @@ class ImagesExtractor:
         contours = cls._detect_svg_contours(page, exclude_areas)
 
         # filter contours
-        fun = lambda a,b: a.bbox & b.bbox
+        fun = lambda a,b: intersection(a.bbox, b.bbox)
         groups = contours.group(fun)
 
         # clip images
diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index 16dea4d..d3a26bf 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -6,6 +6,7 @@
 from docx.shared import Pt
 from ..common.Element import Element
 from ..common import docx, constants
+from ..common.share import intersection
 from ..text.TextBlock import TextBlock
 from ..page import Layout # avoid import conflict
 
@@ -117,7 +118,7 @@ class Cell(Element):
             return
         
         # add nothing if no intersection
-        if not self.bbox & block.bbox: return
+        if not intersection(self.bbox, block.bbox): return
 
         # otherwise, further check lines in text block
         if not block.is_text_image_block():  return
@@ -137,7 +138,7 @@ class Cell(Element):
         '''
         # add shape if contained in cell
         for shape in shapes:
-            if self.bbox & shape.bbox: self.layout.shapes.append(shape)
+            if intersection(self.bbox, shape.bbox): self.layout.shapes.append(shape)
         self.layout.shapes.detect_initial_categories()
 
 
diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 3771dcf..65b0d20 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -8,7 +8,7 @@ from .Line import Line
 from ..image.ImageSpan import ImageSpan
 from ..common.Collection import Collection
 from ..common.docx import add_stop
-from ..common.share import TextAlignment
+from ..common.share import TextAlignment, intersection
 from ..common import constants
 
 
@@ -270,7 +270,7 @@ class Lines(Collection):
 
         for line in self._instances:
             # any intersection in this line?
-            intsec = rect.bbox & line.get_expand_bbox(constants.MAJOR_DIST)
+            intsec = intersection(rect.bbox, line.get_expand_bbox(constants.MAJOR_DIST))
             
             if not intsec: 
                 if rect.bbox.y1 < line.bbox.y0: break # lines must be sorted in advance
diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index ed821a3..35f0198 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -211,7 +211,7 @@ class TextSpan(Element):
         """        
         # any intersection in this span?
         # NOTE: didn't consider the case that an underline is out of a span
-        intsec = rect.bbox & self.bbox
+        intsec = share.intersection(rect.bbox, self.bbox)
 
         # no, then add this span as it is
         if not intsec: return [self]
-- 
2.43.0


From 1dea26a412600cc10cebb20ac905e90b01bbac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 18/70] fix: convert pages with unnamed fonts, for which Arial
 isn't a font built in PyMuPDF

---
 pdf2docx/text/TextSpan.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 35f0198..1c23126 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -118,7 +118,11 @@ class TextSpan(Element):
             fontname (str): Font name.
         '''
         # set new font
-        font = fitz.Font(fontname)
+        # NOTE: fonts like Arial aren't built in PyMuPDF, so estimate with Helvetica
+        try:
+            font = fitz.Font(fontname)
+        except RuntimeError:
+            font = fitz.Font('helv')
         self._font = fontname
 
         # compute text length under new font with that size
-- 
2.43.0


From 02ef5395d408fa64e16f76f91081ff79ea73fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 19/70] fix: no empty layout table on a page where every
 element crosses the center line

---
 pdf2docx/table/TablesConstructor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index 92a0652..f686f43 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -68,9 +68,12 @@ class TablesConstructor:
         X = (x0+x1) / 2.0
         column_elements = list(filter(
                 lambda line: line.bbox[2]<X or line.bbox[0]>X, elements))
-        span_elements = filter(
-                lambda line: line.bbox[2]>=X>=line.bbox[0], elements)
+        span_elements = list(filter(
+                lambda line: line.bbox[2]>=X>=line.bbox[0], elements))
         
+        # check: no columns at all if every element crosses the center line
+        if span_elements and not column_elements: return
+
         # check: intersected elements must on the top or bottom side
         u0, v0, u1, v1 = Collection(column_elements).bbox
         if not all(e.bbox[3]<v0 or e.bbox[1]>v1 for e in span_elements): return
-- 
2.43.0


From 57353efb32bff18edf914346772c0710addf0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 20/70] fix: plot fill only paths in debug mode

---
 pdf2docx/shape/Path.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 14f114e..1116f01 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -368,15 +368,17 @@ class Path:
                 canvas.drawQuad(item[1])
 
         # now apply the common properties to finish the path
+        # NOTE: properties not applicable to this path, e.g. line width of a fill only path, may be None
+        raw = {k: v for k, v in self.raw.items() if v is not None}
         canvas.finish(
-            fill=self.raw.get("fill", None),  # fill color
-            color=self.raw.get("color", None),  # line color
-            dashes=self.raw.get("dashes", None),  # line dashing
-            even_odd=self.raw.get("even_odd", False),  # control color of overlaps
-            closePath=self.raw.get("closePath", True),  # whether to connect last and first point
-            lineJoin=self.raw.get("lineJoin", 0),  # how line joins should look like
-            lineCap=max(self.raw["lineCap"]) if "lineCap" in self.raw else 0,  # how line ends should look like
-            width=self.raw.get("width", 1),  # line width
-            stroke_opacity=self.raw.get("opacity", 1),  # same value for both
-            fill_opacity=self.raw.get("opacity", 1)  # opacity parameters
+            fill=raw.get("fill", None),  # fill color
+            color=raw.get("color", None),  # line color
+            dashes=raw.get("dashes", None),  # line dashing
+            even_odd=raw.get("even_odd", False),  # control color of overlaps
+            closePath=raw.get("closePath", True),  # whether to connect last and first point
+            lineJoin=raw.get("lineJoin", 0),  # how line joins should look like
+            lineCap=max(raw["lineCap"]) if "lineCap" in raw else 0,  # how line ends should look like
+            width=raw.get("width", 1),  # line width
+            stroke_opacity=raw.get("opacity", 1),  # same value for both
+            fill_opacity=raw.get("opacity", 1)  # opacity parameters
             )
\ No newline at end of file
-- 
2.43.0


From 33bb137410678b53b382d71ad0e584fa7343f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 21/70] fix: keep pages containing characters not allowed in
 XML

---
 pdf2docx/common/share.py  | 8 ++++++++
 pdf2docx/shape/Shape.py   | 4 ++--
 pdf2docx/text/Char.py     | 3 ++-
 pdf2docx/text/TextSpan.py | 2 +-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/common/share.py b/pdf2docx/common/share.py
index a2e1088..603efb3 100644
--- a/pdf2docx/common/share.py
+++ b/pdf2docx/common/share.py
@@ -2,6 +2,7 @@
 
 from enum import Enum
 import random
+import re
 from collections import deque
 from collections.abc import Iterable
 import fitz
@@ -103,6 +104,13 @@ def is_number(str_number):
         return True
 
 
+def xml_text(text):
+    '''Replace characters not allowed in XML, e.g. due to a wrong character map of the font, so that 
+    the text can be written to docx.
+    '''
+    return re.sub('[^\\t\\n\\r\\x20-\\ud7ff\\ue000-\\ufffd\\U00010000-\\U0010ffff]', '\ufffd', text)
+
+
 def flatten(items, klass):
     '''Yield items from any nested iterable.'''
     for item in items:
diff --git a/pdf2docx/shape/Shape.py b/pdf2docx/shape/Shape.py
index 792884e..67d0ed2 100644
--- a/pdf2docx/shape/Shape.py
+++ b/pdf2docx/shape/Shape.py
@@ -47,7 +47,7 @@ Data structure::
 
 import fitz
 from ..common.Element import Element
-from ..common.share import RectType
+from ..common.share import RectType, xml_text
 from ..common import constants
 
 
@@ -311,7 +311,7 @@ class Hyperlink(Shape):
         super().__init__(raw)
 
         # set uri
-        self.uri = raw.get('uri', '')
+        self.uri = xml_text(raw.get('uri', ''))
         
 
     def store(self):
diff --git a/pdf2docx/text/Char.py b/pdf2docx/text/Char.py
index d895f33..f40b63a 100644
--- a/pdf2docx/text/Char.py
+++ b/pdf2docx/text/Char.py
@@ -13,6 +13,7 @@ Data structure refer to this `link <https://pymupdf.readthedocs.io/en/latest/tex
 
 
 from ..common.Element import Element
+from ..common.share import xml_text
 from ..shape.Shape import Shape
 
 
@@ -20,7 +21,7 @@ class Char(Element):
     '''Object representing a character.'''
     def __init__(self, raw:dict=None):
         if raw is None: raw = {}
-        self.c = raw.get('c', '')
+        self.c = xml_text(raw.get('c', ''))
         self.origin = raw.get('origin', None)
         super().__init__(raw) # NOTE: ignore parent element for Char instance
 
diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 1c23126..7469ee1 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -47,7 +47,7 @@ class TextSpan(Element):
     def __init__(self, raw:dict=None):
         if raw is None: raw = {}
         self.color = raw.get('color', 0)
-        self._font = raw.get('font', '')
+        self._font = share.xml_text(raw.get('font', ''))
         self.size = raw.get('size', 12.0)
         self.flags = raw.get('flags', 0)
         self.chars = [ Char(c) for c in raw.get('chars', []) ] # type: list[Char]
-- 
2.43.0


From ac5c9eb72de60b37216d388f694c15264bcbde0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:43 +0000
Subject: [PATCH 22/70] fix: extract tables positioned by the layout of
 columns, too

---
 pdf2docx/page/Page.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pdf2docx/page/Page.py b/pdf2docx/page/Page.py
index a73b2b8..3ef01ff 100644
--- a/pdf2docx/page/Page.py
+++ b/pdf2docx/page/Page.py
@@ -174,16 +174,21 @@ class Page(RawPage):
         .. note::
             Before running this method, the page layout must be either parsed from source 
             page or restored from parsed data.
+        
+        .. note::
+            Tables positioned by a stream table, e.g. in a column of the page, are also in top layout.
         '''
         # check table
         tables = [] # type: list[ list[list[str]] ]
-        if self.settings['extract_stream_table']:
-            collections = self.layout.blocks.table_blocks
-        else:
-            collections = self.layout.blocks.lattice_table_blocks
-        
-        for table_block in collections:
-            tables.append(table_block.text)
+        def collect(blocks):
+            for table_block in blocks.table_blocks:
+                if table_block.is_lattice_table_block() or self.settings['extract_stream_table']:
+                    tables.append(table_block.text)
+                if table_block.is_stream_table_block():
+                    for row in table_block:
+                        for cell in row: collect(cell.layout.blocks)
+
+        collect(self.layout.blocks)
 
         return tables
 
-- 
2.43.0


From 96df65cc68016bb9c628af525995b9d8d6f0a8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 23/70] fix: write integers and plain hex colors, as docx
 requires, for borders, indents and char scaling

---
 pdf2docx/common/docx.py | 4 ++--
 pdf2docx/table/Cell.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index 97ab975..173656d 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -101,7 +101,7 @@ def set_char_scaling(p_run, scale:float=1.0):
         p_run (docx.text.run.Run): Proxy object wrapping <w:r> element.
         scale (float, optional): scaling factor. Defaults to 1.0.
     '''
-    p_run._r.get_or_add_rPr().insert(0, parse_xml(r'<w:w {} w:val="{}"/>'.format(nsdecls('w'), 100*scale)))
+    p_run._r.get_or_add_rPr().insert(0, parse_xml(r'<w:w {} w:val="{}"/>'.format(nsdecls('w'), int(round(100*scale)))))
 
 
 def set_char_shading(p_run, srgb:int):
@@ -314,7 +314,7 @@ def indent_table(table, indent:float):
     tbl_pr = table._element.xpath('w:tblPr')
     if tbl_pr:
         e = OxmlElement('w:tblInd')
-        e.set(qn('w:w'), str(20*indent)) # basic unit 1/20 pt for openxml 
+        e.set(qn('w:w'), str(int(round(20*indent)))) # basic unit 1/20 pt for openxml 
         e.set(qn('w:type'), 'dxa')
         tbl_pr[0].append(e)
 
diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index d3a26bf..0a03057 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -202,9 +202,9 @@ class Cell(Element):
             # skip if width=0 -> will not show in docx
             if not w: continue
 
-            hex_c = f'#{hex(c)[2:].zfill(6)}'
+            hex_c = hex(c)[2:].zfill(6)
             kwargs[k] = {
-                'sz': 8*w, 'val': 'single', 'color': hex_c.upper()
+                'sz': min(max(int(round(8*w)), 2), 96), 'val': 'single', 'color': hex_c.upper()
             }
 
         # merged cells are assumed to have same borders with the main cell        
-- 
2.43.0


From 53f64fd92f007d55984a78fe04fe24861e3d9294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 24/70] fix: put hyperlinks in the paragraph rather than in a
 run, as docx requires

---
 pdf2docx/common/docx.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index 173656d..358cd43 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -11,6 +11,7 @@ from docx.oxml.xmlchemy import BaseOxmlElement, OneAndOnlyOne
 from docx.enum.text import WD_COLOR_INDEX
 from docx.image.exceptions import UnrecognizedImageError
 from docx.table import _Cell
+from docx.text.run import Run
 from docx.opc.constants import RELATIONSHIP_TYPE
 
 from .share import rgb_value
@@ -188,11 +189,10 @@ def add_hyperlink(paragraph, url, text):
     new_run.text = text
     hyperlink.append(new_run)
 
-    # Create a new Run object and add the hyperlink into it
-    r = paragraph.add_run()
-    r._r.append(hyperlink)
+    # Add the hyperlink to the paragraph since it's not allowed within a run
+    paragraph._p.append(hyperlink)
 
-    return r
+    return Run(new_run, paragraph)
 
 
 # ---------------------------------------------------------
-- 
2.43.0


From 066942327360e44acc742db63acabb9c116cdc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 25/70] fix: no negative line spacing for paragraphs overlapped
 with the previous block

---
 pdf2docx/text/TextBlock.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index e4dcfc4..f8fe835 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -246,9 +246,11 @@ class TextBlock(Block):
         # taking bottom left corner of first line as the reference point                
         self.before_space += first_line_height - line_space
 
-        # if before spacing is negative, set to zero and adjust calculated line spacing accordingly
+        # if before spacing is negative, set to zero and adjust calculated line spacing accordingly,
+        # except that no line spacing is left, e.g. overlapped with previous block
         if self.before_space < 0:
-            self.line_space += self.before_space / count
+            adjusted_line_space = self.line_space + self.before_space / count
+            if round(adjusted_line_space, 1) > 0: self.line_space = adjusted_line_space
             self.before_space = 0.0
 
 
-- 
2.43.0


From 45f055734476db4652fcf11e9550a68578d4dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:32 +0000
Subject: [PATCH 26/70] fix: highlight entire lines when the filling isn't the
 shading of any table

---
 pdf2docx/page/Layout.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/page/Layout.py b/pdf2docx/page/Layout.py
index 2feae6e..89166e8 100644
--- a/pdf2docx/page/Layout.py
+++ b/pdf2docx/page/Layout.py
@@ -141,8 +141,11 @@ class Layout:
         '''Parse text format, e.g. text highlight, paragraph indentation. 
         '''
         # parse text format, e.g. highlight, underline
+        # NOTE: a filling over entire lines is potential table shading; it's a text highlight
+        # if no table takes it.
         text_shapes =   list(self.shapes.text_underlines_strikes) + \
                         list(self.shapes.text_highlights) + \
+                        list(self.shapes.table_fillings) + \
                         list(self.shapes.hyperlinks)
         self.blocks.parse_text_format(text_shapes)
         
-- 
2.43.0


From c2bea77507b74f43dbf1081a724364da5d31262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:37 +0000
Subject: [PATCH 27/70] fix: no common border for a merged cell along lines of
 different widths

---
 pdf2docx/table/TableStructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index 80db6bc..4a960c7 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -124,7 +124,9 @@ class CellStructure:
         if len(border_strokes)==1: return border_strokes[0]
 
         properties = set([stroke.color for stroke in border_strokes])
-        return border_strokes[0] if len(properties)==1 else Stroke()
+        widths = [stroke.width for stroke in border_strokes]
+        same_width = max(widths)-min(widths) <= constants.TINY_DIST/2.0
+        return border_strokes[0] if len(properties)==1 and same_width else Stroke()
 
 
 class TableStructure:
-- 
2.43.0


From 06ed06e52dda2cbc1ad5f11b050fb5c6689ec088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:37 +0000
Subject: [PATCH 28/70] fix: sort the strokes of each table border line,
 whatever their widths are

---
 pdf2docx/table/TableStructure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index 4a960c7..1b3a7ea 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -393,6 +393,10 @@ class TableStructure:
         # at least 2 inner strokes exist
         if not h_strokes or not v_strokes: return None, None
 
+        # sort strokes along each line; the reading order depends on stroke width
+        for strokes_ in h_strokes.values(): strokes_.sort_in_line_order()
+        for strokes_ in v_strokes.values(): strokes_.sort_in_reading_order()
+
         # Note: add dummy strokes if no outer strokes exist        
         table_bbox = Element().update_bbox((X0, Y0, X1, Y1)) # table bbox
         TableStructure._check_outer_strokes(table_bbox, h_strokes, 'top', max_border_width)
-- 
2.43.0


From 440f460c763d2fc3c72a7d6553646718b55b45bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:22 +0000
Subject: [PATCH 29/70] fix: no highlight on lines touched by the highlight of
 another line

---
 pdf2docx/text/TextSpan.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 7469ee1..8e8399f 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -318,6 +318,10 @@ class TextSpan(Element):
             # In general, highlight color isn't white
             if rect.color != share.rgb_value((1,1,1)) and self.get_main_bbox(rect, constants.FACTOR_MAJOR): 
                 rect.type = RectType.HIGHLIGHT
+            
+            # otherwise, it isn't a highlight of this span, even though it's one of another span
+            else:
+                return False
     
         # near to bottom of span? yes, underline
         elif d <= 0.25*h_span:
-- 
2.43.0


From 001503559721a8beea3f687e3790fae9fa0f1ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:22 +0000
Subject: [PATCH 30/70] fix: no hyperlink on lines touched by the hot area of
 another line

---
 pdf2docx/text/TextSpan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 8e8399f..30c996a 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -295,6 +295,8 @@ class TextSpan(Element):
         
         # set hyperlink
         elif rect.type==RectType.HYPERLINK:
+            # the hot area may touch adjacent lines
+            if not self.get_main_bbox(rect, constants.FACTOR_A_HALF): return False
             self.style.append({
                 'type': rect.type.value,
                 'color': rect.color,
-- 
2.43.0


From 2422268ca859c150024afbc8269f717a83ea7582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 31/70] fix: no extra empty row after a table in a cell

---
 pdf2docx/page/Blocks.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 2a68cb3..084c9d4 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -4,6 +4,7 @@
 '''
 
 from docx.shared import Pt
+from docx.table import _Cell
 from ..common import constants
 from ..common.Collection import Collection
 from ..common.share import BlockType, rgb_value
@@ -14,7 +15,6 @@ from ..text.Line import Line
 from ..text.Lines import Lines
 from ..image.ImageBlock import ImageBlock
 from ..table.TableBlock import TableBlock
-from ..table.Cell import Cell
 
 
 class Blocks(Collection):
@@ -507,13 +507,20 @@ class Blocks(Collection):
         Args:
             doc (Document, _Cell): The container to make docx content.
         '''
+        in_cell = isinstance(doc, _Cell)
+
+        def add_paragraph(pre_table):
+            # NOTE: an empty paragraph is added automatically by ``python-docx`` after each table in a cell,
+            # so use it rather than leave it as an extra row between the table and the next paragraph
+            return doc.paragraphs[-1] if in_cell and pre_table else doc.add_paragraph()
+
         def make_table(table_block, pre_table):
             # create dummy paragraph if table before space is set
             # - a minimum line height of paragraph is 0.7pt, so ignore before space if less than this value
             # - but tow adjacent tables will be combined automatically, so adding a minimum dummy paragraph is required
             if table_block.before_space>=constants.MIN_LINE_SPACING or pre_table:
                 h = int(10*table_block.before_space)/10.0 # round(x,1), but to lower bound
-                p = doc.add_paragraph()
+                p = add_paragraph(pre_table)
                 reset_paragraph_format(p, line_spacing=Pt(h))
 
             # new table            
@@ -527,7 +534,7 @@ class Blocks(Collection):
             # make paragraphs
             if block.is_text_image_block():
                 # new paragraph
-                p = doc.add_paragraph()
+                p = add_paragraph(pre_table)
                 block.make_docx(p)
 
                 pre_table = False # mark block type
@@ -538,7 +545,10 @@ class Blocks(Collection):
                 pre_table = True # mark block type
 
         # below table processing is necessary for page level only
-        if isinstance(self.parent, Cell): return
+        # (a paragraph follows the table at the end of a cell already)
+        if in_cell:
+            if pre_table: reset_paragraph_format(doc.paragraphs[-1], Pt(constants.MIN_LINE_SPACING))
+            return
         
         # NOTE: If a table is at the end of a page, a new paragraph will be automatically 
         # added by the rending engine, e.g. MS Word, which resulting in an unexpected
-- 
2.43.0


From 17794fe01e46ec039361b3b6d821513d70abcba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 32/70] fix: same width for all parts of a vertically merged
 cell

---
 pdf2docx/table/Cell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index 0a03057..652e1cc 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -167,8 +167,10 @@ class Cell(Element):
         # cell width (cell height is set by row height)
         # ---------------------
         # experience: width of merged cells may change if not setting width for merged cells
+        # NOTE: a vertically merged cell consists of one docx cell for each row, all of the same width
         x0, y0, x1, y1 = self.bbox
-        docx_cell.width = Pt(x1-x0)
+        for row in table.rows[i:i+n_row]:
+            row._tr.tc_at_grid_col(j).width = Pt(x1-x0)
 
         # insert contents
         # NOTE: there exists an empty paragraph already in each cell, which should be deleted first to
-- 
2.43.0


From f9decc5b0b3f86d562d6d50cb372827723367e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 33/70] fix: pictures as high as drawn, even when stretched

---
 pdf2docx/common/docx.py      | 10 ++++++----
 pdf2docx/image/Image.py      |  2 +-
 pdf2docx/image/ImageBlock.py |  2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index 358cd43..7a1d708 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -198,17 +198,18 @@ def add_hyperlink(paragraph, url, text):
 # ---------------------------------------------------------
 # image properties
 # ---------------------------------------------------------
-def add_image(p, image_path_or_stream, width):
+def add_image(p, image_path_or_stream, width, height=None):
     ''' Add image to paragraph.
     
     Args:
         p (Paragraph): ``python-docx`` paragraph instance.
         image_path_or_stream (str, bytes): Image path or stream.
         width (float): Image width in Pt.
+        height (float, optional): Image height in Pt. Defaults to None, i.e. keep the aspect ratio of the source image.
     '''
     docx_span = p.add_run()
     try:
-        docx_span.add_picture(image_path_or_stream, width=Pt(width))
+        docx_span.add_picture(image_path_or_stream, width=Pt(width), height=None if height is None else Pt(height))
     except UnrecognizedImageError:
         print('Unrecognized Image.')
         return
@@ -282,7 +283,7 @@ class _CT_Anchor(BaseOxmlElement):
 register_element_cls('wp:anchor', _CT_Anchor)
 
 
-def add_float_image(p, image_path_or_stream, width, pos_x=None, pos_y=None):
+def add_float_image(p, image_path_or_stream, width, pos_x=None, pos_y=None, height=None):
     '''Add float image behind text.
     
     Args:
@@ -291,11 +292,12 @@ def add_float_image(p, image_path_or_stream, width, pos_x=None, pos_y=None):
         width (float): Displaying width of picture, in unit Pt.
         pos_x (float): X-position (English Metric Units) to the top-left point of page valid region
         pos_y (float): Y-position (English Metric Units) to the top-left point of page valid region
+        height (float, optional): Displaying height of picture, in unit Pt. Defaults to None, i.e. keep the aspect ratio.
     '''
     run = p.add_run()
     # parameters for picture, e.g. id, name
     rId, image = run.part.get_or_add_image(image_path_or_stream)
-    cx, cy = image.scaled_dimensions(Pt(width), None)
+    cx, cy = image.scaled_dimensions(Pt(width), None if height is None else Pt(height))
     shape_id, filename = run.part.next_id, image.filename
     anchor = _CT_Anchor.new_pic_anchor(shape_id, rId, filename, cx, cy, Pt(pos_x), Pt(pos_y))
     run._r.add_drawing(anchor)
diff --git a/pdf2docx/image/Image.py b/pdf2docx/image/Image.py
index 676d24d..181bf6a 100644
--- a/pdf2docx/image/Image.py
+++ b/pdf2docx/image/Image.py
@@ -94,4 +94,4 @@ class Image(Element):
     def make_docx(self, paragraph):
         '''Add image span to a docx paragraph.'''
         # add image
-        docx.add_image(paragraph, BytesIO(self.image), self.bbox.x1-self.bbox.x0)
\ No newline at end of file
+        docx.add_image(paragraph, BytesIO(self.image), self.bbox.x1-self.bbox.x0, self.bbox.y1-self.bbox.y0)
\ No newline at end of file
diff --git a/pdf2docx/image/ImageBlock.py b/pdf2docx/image/ImageBlock.py
index 16c8874..17c6668 100644
--- a/pdf2docx/image/ImageBlock.py
+++ b/pdf2docx/image/ImageBlock.py
@@ -92,7 +92,7 @@ class ImageBlock(Image, Block): # to get Image.plot() in first priority
         '''
         if self.is_float_image_block():
             x0, y0, x1, y1 = self.bbox
-            add_float_image(p, BytesIO(self.image), width=x1-x0, pos_x=x0, pos_y=y0)
+            add_float_image(p, BytesIO(self.image), width=x1-x0, pos_x=x0, pos_y=y0, height=y1-y0)
         else:
             super().make_docx(p)
         return p
\ No newline at end of file
-- 
2.43.0


From 256d5d8e0bb6be48d7c6b503545fd83384f3128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 34/70] fix: no second, empty copy of a table moved into the
 columns of a page

---
 pdf2docx/table/TablesConstructor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index f686f43..7f26d93 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -99,6 +99,9 @@ class TablesConstructor:
         self._blocks.assign_to_tables(tables)
         self._shapes.assign_to_tables(tables)
 
+        # only the shapes left, if any, are candidates for tables and text format of the page
+        if tables: self._shapes.detect_initial_categories()
+
 
     def lattice_tables(self, 
                 connected_border_tolerance:float,
-- 
2.43.0


From 7ed6a4281a8421d9724a3eba1e98c7a856e5866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:14 +0000
Subject: [PATCH 35/70] fix: no column layout for a page with one side of the
 center line empty

---
 pdf2docx/table/TablesConstructor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index 7f26d93..36b79d8 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -71,8 +71,10 @@ class TablesConstructor:
         span_elements = list(filter(
                 lambda line: line.bbox[2]>=X>=line.bbox[0], elements))
         
-        # check: no columns at all if every element crosses the center line
-        if span_elements and not column_elements: return
+        # check: no columns at all if either side of the center line is empty
+        left = any(e.bbox[2]<X for e in column_elements)
+        right = any(e.bbox[0]>X for e in column_elements)
+        if elements and not (left and right): return
 
         # check: intersected elements must on the top or bottom side
         u0, v0, u1, v1 = Collection(column_elements).bbox
-- 
2.43.0


From b85ba14a98b9f8d454788e256abab8188a56b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:59 +0000
Subject: [PATCH 36/70] fix: no justified paragraph when its last row is the
 longest one

---
 pdf2docx/text/TextBlock.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index f8fe835..ac709a0 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -358,9 +358,11 @@ class TextBlock(Block):
         X1 = [lines[-1].bbox[idx1] for lines in rows]
         X  = [(x0+x1)/2.0 for (x0, x1) in zip(X0, X1)]
 
+        # NOTE: the last row may end before the right side, but never beyond it
+        last_inside = len(rows)<3 or (X1[-1]-X1[0])*f<=lines_right_aligned_threshold
         if len(rows) >= 3: X0, X1 = X0[1:], X1[0:-1]
         left_aligned   = abs(max(X0)-min(X0))<=lines_left_aligned_threshold
-        right_aligned  = abs(max(X1)-min(X1))<=lines_right_aligned_threshold
+        right_aligned  = abs(max(X1)-min(X1))<=lines_right_aligned_threshold and last_inside
         center_aligned = abs(max(X)-min(X))<=lines_center_aligned_threshold # coarse margin for center alignment
 
         if left_aligned and right_aligned:
-- 
2.43.0


From 47e86c68a0815d1ef6537bdc594f70c7a3d689f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 37/70] fix: pictures with a mask of another resolution

---
 pdf2docx/image/ImagesExtractor.py | 34 +++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 031c919..0689cc4 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -216,8 +216,8 @@ class ImagesExtractor:
             for xref, stream in streams.items(): page.parent.updateStream(xref, stream)
 
    
-    @staticmethod
-    def _recover_pixmap(doc:fitz.Document, item:list):
+    @classmethod
+    def _recover_pixmap(cls, doc:fitz.Document, item:list):
         """Restore pixmap with soft mask considered.
         
         References:
@@ -243,11 +243,16 @@ class ImagesExtractor:
 
         # reconstruct the alpha channel with the smask if exists
         if s > 0:        
+            # the mask may have its own resolution -> use the higher one for both
+            mask = fitz.Pixmap(doc, s)
+            w, h = max(pix.width, mask.width), max(pix.height, mask.height)
+            pix, mask = cls._resize(pix, w, h), cls._resize(mask, w, h)
+
             # copy of base image, with an alpha channel added
             pix = fitz.Pixmap(pix, 1)  
             
             # create pixmap of the /SMask entry
-            ba = bytearray(fitz.Pixmap(doc, s).samples)
+            ba = bytearray(mask.samples)
             for i in range(len(ba)):
                 if ba[i] > 0: ba[i] = 255
             pix.setAlpha(ba)
@@ -258,4 +263,25 @@ class ImagesExtractor:
         if pix.colorspace and not pix.colorspace.name in (fitz.csGRAY.name, fitz.csRGB.name):
             pix = fitz.Pixmap(fitz.csRGB, pix)
 
-        return pix
\ No newline at end of file
+        return pix
+
+
+    @staticmethod
+    def _resize(pix:fitz.Pixmap, width:int, height:int):
+        """Change the count of pixels in both directions by repeating them.
+
+        Args:
+            pix (fitz.Pixmap): Source pixmap.
+            width (int): Target width.
+            height (int): Target height.
+
+        Returns:
+            fitz.Pixmap: Pixmap in target size.
+        """
+        if (pix.width, pix.height)==(width, height): return pix
+
+        import numpy as np
+        samples = np.frombuffer(pix.samples, np.uint8).reshape(pix.height, pix.width, pix.n)
+        rows = np.arange(height)*pix.height//height
+        cols = np.arange(width)*pix.width//width
+        return fitz.Pixmap(pix.colorspace, width, height, samples[rows][:,cols].tobytes(), pix.alpha)
-- 
2.43.0


From a5f0da13faa7cce73c68e2462dec0db89bb3990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 38/70] fix: keep inline pictures, and different ones at the
 same place

---
 pdf2docx/page/RawPage.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 3ff7a33..a6305e1 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -99,29 +99,36 @@ class RawPage:
             block['type'] = -1 # "delete" it temporally
             image_blocks_group[hash(block['image'])].append(block)
         
-        def same_images(img, img_list):
-            bbox = list(map(round, img['bbox']))
-            for _img in img_list:
-                if list(map(round, _img['bbox']))==bbox: return True
-            return False
+        def same_location(img1, img2):
+            return all(abs(a-b)<=1.0 for a, b in zip(img1['bbox'], img2['bbox']))
 
         # An example to show complicated things here:
         # - images in `page.getImageList`: [a, b, c]
         # - images in `page.getText`     : [a1, a2, b, d]
         # (1) a -> a1, a2: an image in page maps to multi-instances in raw dict
         # (2) c: an image in page may not exist in raw dict -> so, add it
-        # (3) d: an image in raw dict may not exist in page -> so, delete it
+        # (3) d: an image in raw dict may not exist in page, i.e. an inline image -> so, keep it
+        matched = set()
         for image in recovered_images:
-            for k, image_blocks in image_blocks_group.items():
-                if not same_images(image, image_blocks): continue
-                for image_block in image_blocks:
-                    image_block['type'] = 1 # add it back
-                    image_block['image'] = image['image']
-                break
+            keys = [k for k, image_blocks in image_blocks_group.items() \
+                        if any(same_location(image, image_block) for image_block in image_blocks)]
 
             # an image outside the page is not counted in page.getText(), so let's add it here
-            else:
+            if not keys:
                 raw['blocks'].append(image)
+                continue
+
+            # images in same location but with different contents: one by one
+            key = next((k for k in keys if k not in matched), keys[0])
+            matched.add(key)
+            for image_block in image_blocks_group[key]:
+                if image_block['type']==1 and not same_location(image, image_block): continue
+                image_block['type'] = 1 # add it back
+                image_block['image'] = image['image']
+
+        # inline images are not counted in page.getImageList(), so add them back here
+        for image_blocks in image_blocks_group.values():
+            for image_block in image_blocks: image_block['type'] = 1
 
 
     @debug_plot('Source Paths')
-- 
2.43.0


From cbc86749537b2227fae6ed77eeca860986ba053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 39/70] fix: pictures mirrored and turned as displayed

---
 pdf2docx/image/ImagesExtractor.py | 38 +++++++++++++++++++++++++++++++
 pdf2docx/page/RawPage.py          |  6 +++++
 2 files changed, 44 insertions(+)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 0689cc4..8214660 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -68,6 +68,44 @@ class ImagesExtractor:
         return images
     
 
+    @classmethod
+    def update_displayed_image(cls, page:fitz.Page, block:dict, clip_image_res_ratio:float=3.0):
+        """Update image block extracted with ``page.getText('rawdict')``, since it might be mirrored or 
+        rotated (including page rotation) when drawing the image in page.
+
+        Args:
+            page (fitz.Page): pdf page.
+            block (dict): Raw dict of image block.
+            clip_image_res_ratio (float, optional): Resolution ratio of clipped bitmap. Defaults to 3.0.
+        """
+        # stencil mask without any colors -> what is displayed in page
+        if block['colorspace']==0:
+            pix = cls._clip_page(page, fitz.Rect(block['bbox'])*page.rotationMatrix, zoom=clip_image_res_ratio)
+
+        else:
+            # image x-axis -> (a, b), y-axis -> (c, d)
+            a, b, c, d, *_ = fitz.Matrix(block['transform'])*page.rotationMatrix
+            is_transposed = abs(b)+abs(c) > abs(a)+abs(d)
+            sx, sy = (c, b) if is_transposed else (a, d)
+            if not is_transposed and sx>=0 and sy>=0: return
+
+            import numpy as np
+            pix = fitz.Pixmap(block['image'])
+            samples = np.frombuffer(pix.samples, np.uint8).reshape(pix.height, pix.width, pix.n)
+            if is_transposed: samples = samples.transpose(1, 0, 2)
+            if sx<0: samples = samples[:,::-1]
+            if sy<0: samples = samples[::-1]
+            h, w, _ = samples.shape
+            pix = fitz.Pixmap(pix.colorspace, w, h, samples.tobytes(), pix.alpha)
+
+        block.update({
+            'ext': 'png',
+            'width': pix.width,
+            'height': pix.height,
+            'image': pix.getPNGData()
+        })
+
+
     @classmethod
     def extract_vector_graphics(cls, page:fitz.Page, exclude_areas:list, clip_image_res_ratio:float=3.0):
         """Detect and extract vector graphics by clipping associated page area.
diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index a6305e1..c052502 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -130,6 +130,12 @@ class RawPage:
         for image_blocks in image_blocks_group.values():
             for image_block in image_blocks: image_block['type'] = 1
 
+        # image contents in the way they're displayed, e.g. considering rotation
+        for image_blocks in image_blocks_group.values():
+            for image_block in image_blocks:
+                ImagesExtractor.update_displayed_image(self.fitz_page, image_block,
+                                            self.settings['clip_image_res_ratio'])
+
 
     @debug_plot('Source Paths')
     def _preprocess_shapes(self, raw):
-- 
2.43.0


From 65dbd77916a85c9a480e0e8add6434631c41fbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 40/70] fix: no second copy of a picture near the edge of a
 page with drawings

---
 pdf2docx/image/ImagesExtractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 8214660..42fa897 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -155,7 +155,7 @@ class ImagesExtractor:
         gray = cv.cvtColor(src, cv.COLOR_BGR2GRAY)
         for bbox in exclude_areas:
             x0, y0, x1, y1 = map(int, bbox)
-            gray[y0-2:y1+2, x0-2:x1+2] = 255
+            gray[max(0,y0-2):max(0,y1+2), max(0,x0-2):max(0,x1+2)] = 255
             # cv.rectangle(src, (x0,y0), (x1,y1), (0,255,0), 1) # plot excluded areas
 
         # Gauss blur and binary        
-- 
2.43.0


From ac07a9f980ef810baadccbfc3191f09e4456b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:28 +0000
Subject: [PATCH 41/70] fix: drawings on pages smaller than 50 pt

---
 pdf2docx/image/ImagesExtractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 42fa897..965d4e9 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -164,7 +164,7 @@ class ImagesExtractor:
         
         # detect contour with opencv
         rows, cols = binary.shape[0:2]
-        kernel = cv.getStructuringElement(cv.MORPH_RECT, (cols//50, rows//50))
+        kernel = cv.getStructuringElement(cv.MORPH_RECT, (max(1,cols//50), max(1,rows//50)))
         dst = cv.morphologyEx(binary, cv.MORPH_CLOSE, kernel) # close
         contours, hierarchy = cv.findContours(dst,cv.RETR_EXTERNAL,cv.CHAIN_APPROX_SIMPLE)
         
-- 
2.43.0


From 4fd7330a2ed3afecab84831a40a190d3cdcc44a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 42/70] fix: no picture or text lost when a small picture
 overlaps a row of text

---
 pdf2docx/page/Blocks.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 084c9d4..1b31cd4 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -162,7 +162,7 @@ class Blocks(Collection):
         # NOTE: It's to merge blocks in physically horizontal direction, i.e. without considering text direction.
         self.strip() \
             .sort_in_reading_order() \
-            .identify_floating_images(float_image_ignorable_gap) \
+            .identify_floating_images(float_image_ignorable_gap, line_overlap_threshold) \
             .join_horizontally(text_direction=False, 
                             line_overlap_threshold=line_overlap_threshold,
                             line_merging_threshold=line_merging_threshold)
@@ -174,11 +174,13 @@ class Blocks(Collection):
         return self
 
 
-    def identify_floating_images(self, float_image_ignorable_gap:float):
+    def identify_floating_images(self, float_image_ignorable_gap:float, line_overlap_threshold:float):
         """Identify floating image lines and convert to ImageBlock.
 
         Args:
             float_image_ignorable_gap (float): Regarded as float image if the intersection exceeds this value.
+            line_overlap_threshold (float): Regarded as float image as well if the rate of intersection exceeds 
+                this value, otherwise, it or the line underneath would be deleted as overlapped line.
         """
         # group lines by connectivity
         lines = Lines()
@@ -187,12 +189,16 @@ class Blocks(Collection):
         groups = lines.group_by_connectivity(dx=-float_image_ignorable_gap, dy=-float_image_ignorable_gap)
         
         # identify floating objects
-        for group in filter(lambda group: len(group)>1, groups):
+        for group in groups:
             for line in group:
                 block = line.parent
                 # consider image block only (converted to text block)
                 if not block.is_inline_image_block(): continue
 
+                # overlap with any other lines
+                if len(group)==1 and not any(line.get_main_bbox(other, line_overlap_threshold) 
+                        for other in lines if other is not line): continue
+
                 float_image = ImageBlock().from_text_block(block)
                 float_image.set_float_image_block()
                 self.floating_image_blocks.append(float_image)
-- 
2.43.0


From 244c42b8590f17e50cf8e2778b8bb5e972e8db3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:19 +0000
Subject: [PATCH 43/70] fix: float image when the intersection exceeds the
 documented gap

Both boxes are shrunk, so that the gap counted twice.
---
 pdf2docx/page/Blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 1b31cd4..eb83ec9 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -186,7 +186,7 @@ class Blocks(Collection):
         lines = Lines()
         for block in self._instances:
             lines.extend(block.lines)
-        groups = lines.group_by_connectivity(dx=-float_image_ignorable_gap, dy=-float_image_ignorable_gap)
+        groups = lines.group_by_connectivity(dx=-float_image_ignorable_gap/2.0, dy=-float_image_ignorable_gap/2.0)
         
         # identify floating objects
         for group in groups:
-- 
2.43.0


From 6c44fae601b9bf9906c9e8131b20c6f44adbd24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:19 +0000
Subject: [PATCH 44/70] fix: left indent of a paragraph with its first line
 indented

The left side of the block is the left side of the other lines then.
---
 pdf2docx/text/TextBlock.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index ac709a0..b5c9ac8 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -296,8 +296,9 @@ class TextBlock(Block):
             pf.alignment = WD_ALIGN_PARAGRAPH.JUSTIFY
 
         # - paragraph indentation
-        # NOTE: first-line-indent should be excluded
-        pf.left_indent  = Pt(self.left_space-self.first_line_space)
+        # NOTE: first-line-indent should be excluded when the first line starts ahead (hanging indent),
+        # otherwise the left side of block is already the left side of the other lines
+        pf.left_indent  = Pt(self.left_space-min(self.first_line_space, 0.0))
         pf.right_indent  = Pt(self.right_space)
 
         # - first line indentation
-- 
2.43.0


From 01cee918ac952494534948e694e5feeb5ad343b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 45/70] fix: rectangles of negative size in paths

---
 pdf2docx/shape/Path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 1116f01..b3bfae4 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -67,7 +67,8 @@ class L(Segment):
 class R(Segment):
     '''Rect path with source ``("re", rect)``.'''
     def __init__(self, item):
-        self.rect = item[1]
+        # NOTE: the size of a rectangle might be negative in pdf, e.g. drawn from right to left
+        self.rect = fitz.Rect(item[1]).normalize()
 
     def to_strokes(self, width:float, color:list):
         """Convert each edge to stroke dict.
-- 
2.43.0


From f8b2c4991fd334b8ebb1640781b71cd8a28fa4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 46/70] fix: horizontal and vertical lines connected in one
 path are table borders, too

---
 pdf2docx/shape/Path.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index b3bfae4..b7a313f 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -39,6 +39,13 @@ class Segment:
 
 class L(Segment):
     '''Line path with source ``("l", p1, p2)``.'''
+    @property
+    def is_iso_oriented(self):
+        '''Whether a horizontal or vertical line.'''
+        (x0, y0), (x1, y1) = self.points
+        return abs(x0-x1)<1e-3 or abs(y0-y1)<1e-3
+
+
     def to_strokes(self, width:float, color:list):
         """Convert to stroke dict.
 
@@ -134,6 +141,13 @@ class Segments:
         return bbox_area==0 or self.area/bbox_area>=constants.FACTOR_MOST
 
 
+    @property
+    def is_iso_polyline(self):
+        '''Whether an open polyline composed of horizontal and vertical lines only.'''
+        return self.area==0 and all(
+            isinstance(segment, L) and segment.is_iso_oriented for segment in self._instances)
+
+
     def _cal_bbox_and_area(self):
         '''Calculate bbox and area of Segments. 
         
@@ -291,9 +305,12 @@ class Path:
 
     @property
     def is_iso_oriented(self):
-        '''It is iso-oriented when all contained segments are iso-oriented.'''
+        '''It is iso-oriented when all contained segments are iso-oriented. 
+        Besides, horizontal and vertical lines might be connected if stroked only.'''
+        stroke_only = self.raw.get('fill', None) is None
         for segments in self.items:
-            if not segments.is_iso_oriented: return False
+            if segments.is_iso_oriented: continue
+            if not (stroke_only and segments.is_iso_polyline): return False
         return True
 
 
-- 
2.43.0


From 2b01f2808754590b37160b0e1c106ee87588af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:30 +0000
Subject: [PATCH 47/70] fix: a border drawn twice with different widths or
 colours was lost

---
 pdf2docx/table/TableStructure.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index 1b3a7ea..84f43ab 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -103,6 +103,7 @@ class CellStructure:
         # check all candidate strokes
         L = 0.0
         border_strokes = []
+        entire_stroke = None
         for stroke in strokes:
             bbox = (stroke.x0, stroke.y0, stroke.x1, stroke.y1)
             t0, t1 = bbox[idx], bbox[idx+2]
@@ -114,6 +115,10 @@ class CellStructure:
             if dl < constants.MAJOR_DIST: continue 
             L += dl
             border_strokes.append(stroke)
+            # strokes covering the entire border: the widest one counts, and the last one for same width
+            if dl/(x1-x0) >= constants.FACTOR_MOST and \
+                (entire_stroke is None or stroke.width >= entire_stroke.width):
+                entire_stroke = stroke
         
         # use an empty stroke if nothing found, especially for merged cells.
         # no worry since the border style will be set correctly by adjacent separate cells.
@@ -122,6 +127,7 @@ class CellStructure:
         # the entire border of merged cell must have same property, i.e. width and color
         # otherwise, set empty stroke here and let adjacent cells set the correct style separately
         if len(border_strokes)==1: return border_strokes[0]
+        if entire_stroke is not None: return entire_stroke
 
         properties = set([stroke.color for stroke in border_strokes])
         widths = [stroke.width for stroke in border_strokes]
-- 
2.43.0


From d196355888c3c86fc4a773b6778b018fb649f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:26 +0000
Subject: [PATCH 48/70] fix: bbox and area of paths with curves

The control points of a curve might be far away from the curve, so that e.g. an ellipse
composed of two curves was regarded as a rectangle.
---
 pdf2docx/shape/Path.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index b7a313f..df27770 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -110,7 +110,14 @@ class R(Segment):
 
 class C(Segment):
     '''Bezier curve path with source ``("c", p1, p2, p3, p4)``.'''
-    pass
+    def __init__(self, item, count:int=16):
+        # NOTE: points on the curve, since the control points might be far away from it
+        P = item[1:]
+        self.points = []
+        for i in range(count+1):
+            t = i / count
+            F = ((1-t)**3, 3*t*(1-t)**2, 3*t**2*(1-t), t**3)
+            self.points.append(tuple(sum(f*p[k] for f, p in zip(F, P)) for k in (0,1)))
 
 
 class Segments:
@@ -153,8 +160,8 @@ class Segments:
         
         .. note::
             * For iso-oriented segments, ``bbox.getArea()==0``.
-            * The real area is calculated with Green formulas. Nut the boundary of Bezier curve 
-              is simplified with its control points.
+            * The real area is calculated with Green formulas. The boundary of Bezier curve 
+              is simplified with points on it.
         '''
         # rectangle area
         if len(self._instances)==1 and isinstance(self._instances[0], R):
-- 
2.43.0


From b90f6d741289bf782476df128a971a98763a87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:59 +0000
Subject: [PATCH 49/70] fix: words of one row close to each other were glued
 together

---
 pdf2docx/text/Lines.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 65b0d20..3f16a07 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -344,7 +344,7 @@ class Lines(Collection):
 
         for i, line in enumerate(self._instances):
             # left indentation implemented with tab
-            pos = block.left_space + (line.bbox[idx0]-block.bbox[idx0])
+            pos = block.left_space + abs(line.bbox[idx0]-block.bbox[idx0])
             if pos>block.left_space and block.tab_stops: # sometimes set by first line indentation
                 add_stop(p, Pt(pos), Pt(current_pos))
 
@@ -355,7 +355,11 @@ class Lines(Collection):
             if line==self._instances[-1]: break
             next_line = self._instances[i+1]
             if line.in_same_row(next_line):
-                current_pos = pos + abs(line.bbox[idx1]-block.bbox[idx0])
+                current_pos = block.left_space + abs(line.bbox[idx1]-block.bbox[idx0])
+                # no tab to next line: keep separate words apart
+                gap = abs(next_line.bbox[idx0]-line.bbox[idx1])
+                min_gap = max(constants.MINOR_DIST, 0.1*abs(line.bbox[(idx1+1)%4]-line.bbox[(idx0+1)%4]))
+                if gap>min_gap and not block.tab_stops and line.is_word_separated(next_line): p.add_run(' ')
             else:
                 current_pos = block.left_space
                 # the rows run on in one paragraph: keep words of adjacent rows apart
-- 
2.43.0


From 2979a8a38a9512bce491288796c00ba6426055ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:03 +0000
Subject: [PATCH 50/70] fix: superscripts were not put out as such

---
 pdf2docx/text/TextSpan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 30c996a..366e6bf 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -408,7 +408,7 @@ class TextSpan(Element):
         # bit 2: serifed (2^2)
         # bit 3: monospaced (2^3)
         # bit 4: bold (2^4)
-        docx_run.superscript = bool(self.flags & 2**0)
+        docx_run.font.superscript = bool(self.flags & 2**0) or None
         docx_run.italic = bool(self.flags & 2**1)
         docx_run.bold = bool(self.flags & 2**4)
 
-- 
2.43.0


From 080c22850c3eab48f647df3aff27ac2372f73d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:18 +0000
Subject: [PATCH 51/70] fix: name of fonts with a hyphen in their name, e.g.
 DFKai-SB

---
 pdf2docx/text/TextSpan.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 366e6bf..37a768c 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -74,12 +74,16 @@ class TextSpan(Element):
         NSimSUN refers to Chinese font name `新宋体`, so consider a localization mapping.
         '''
         # process on '+' and '-'
-        font_name = self._font.split('+')[-1]
-        font_name = font_name.split('-')[0]
+        parts = self._font.split('+')[-1].split('-')
+        font_name = parts[0]
 
         # mapping font name
-        key = font_name.replace(' ', '').replace('-', '').replace('_', '').upper() # normalize mapping key
-        font_name = constants.DICT_FONTS.get(key, font_name)
+        # NOTE: '-' may be part of the name itself, e.g. DFKai-SB
+        for i in range(len(parts), 0, -1):
+            key = ''.join(parts[:i]).replace(' ', '').replace('_', '').upper() # normalize mapping key
+            if key in constants.DICT_FONTS:
+                font_name = constants.DICT_FONTS[key]
+                break
 
         # replace ','
         font_name = font_name.replace(',', ' ')
-- 
2.43.0


From 1717f2853f4cf3be9fb494310c38a675c7188bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:37 +0000
Subject: [PATCH 52/70] fix: blanks at the end of a line were kept if there
 were some at its begin

---
 pdf2docx/text/Spans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/Spans.py b/pdf2docx/text/Spans.py
index 54600a3..cbc2dac 100644
--- a/pdf2docx/text/Spans.py
+++ b/pdf2docx/text/Spans.py
@@ -41,11 +41,11 @@ class Spans(Collection):
         
         # left strip the first span
         left_span = self._instances[0]
-        if isinstance(left_span, TextSpan): stripped = stripped or left_span.lstrip() 
+        if isinstance(left_span, TextSpan): stripped = left_span.lstrip()
 
         # right strip the last span
         right_span = self._instances[-1]
-        if isinstance(right_span, TextSpan): stripped = stripped or right_span.rstrip()
+        if isinstance(right_span, TextSpan): stripped = right_span.rstrip() or stripped
 
         # update bbox
         if stripped: self._parent.update_bbox(self.bbox)
-- 
2.43.0


From 67f8153c027ea6e51c4eb78f931ab986caa01ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:17 +0000
Subject: [PATCH 53/70] fix: rows with a common middle off the middle of the
 page or cell were moved there

---
 pdf2docx/text/TextBlock.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index b5c9ac8..7b789a5 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -199,6 +199,10 @@ class TextBlock(Block):
         elif self.alignment == TextAlignment.CENTER:
             self.left_space = 0
             self.right_space = 0
+            # NOTE: the center of lines may differ from that of the page or cell
+            if ext_alignment != TextAlignment.CENTER:
+                self.left_space = max(self.left_space_total-self.right_space_total, 0.0)
+                self.right_space = max(self.right_space_total-self.left_space_total, 0.0)
         else:
             self.left_space = self.left_space_total
             self.right_space = self.right_space_total
-- 
2.43.0


From 68d719b7cf6e6d704a9b35c1aff48aba2c1827b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:10 +0000
Subject: [PATCH 54/70] fix: last row of a paragraph was moved to the right
 side if the other rows end there

---
 pdf2docx/text/TextBlock.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index 7b789a5..abb12d4 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -365,6 +365,8 @@ class TextBlock(Block):
 
         # NOTE: the last row may end before the right side, but never beyond it
         last_inside = len(rows)<3 or (X1[-1]-X1[0])*f<=lines_right_aligned_threshold
+        # for a right-aligned paragraph, the last row ends at the right side, too
+        all_right = abs(max(X1)-min(X1))<=lines_right_aligned_threshold
         if len(rows) >= 3: X0, X1 = X0[1:], X1[0:-1]
         left_aligned   = abs(max(X0)-min(X0))<=lines_left_aligned_threshold
         right_aligned  = abs(max(X1)-min(X1))<=lines_right_aligned_threshold and last_inside
@@ -376,7 +378,7 @@ class TextBlock(Block):
         elif left_aligned:
             self.first_line_space = rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]
             return TextAlignment.LEFT
-        elif right_aligned:
+        elif all_right:
             return TextAlignment.RIGHT
         elif center_aligned:
             return TextAlignment.CENTER
-- 
2.43.0


From 02616f30dd628d8699f8317ddad8ba607a4d5500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:29 +0000
Subject: [PATCH 55/70] fix: indentation of the first row was lost in justified
 paragraphs, wrong in turned ones

---
 pdf2docx/text/TextBlock.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index abb12d4..6b7387d 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -372,11 +372,14 @@ class TextBlock(Block):
         right_aligned  = abs(max(X1)-min(X1))<=lines_right_aligned_threshold and last_inside
         center_aligned = abs(max(X)-min(X))<=lines_center_aligned_threshold # coarse margin for center alignment
 
+        first_line_space = (rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0])*f
         if left_aligned and right_aligned:
             # need further external check if two lines only
-            return TextAlignment.JUSTIFY if len(rows)>=3 else TextAlignment.UNKNOWN
+            if len(rows) < 3: return TextAlignment.UNKNOWN
+            self.first_line_space = first_line_space
+            return TextAlignment.JUSTIFY
         elif left_aligned:
-            self.first_line_space = rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]
+            self.first_line_space = first_line_space
             return TextAlignment.LEFT
         elif all_right:
             return TextAlignment.RIGHT
-- 
2.43.0


From 51291c94369718c2d9c0caffd83dedefa008422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:29 +0000
Subject: [PATCH 56/70] fix: a row was joined with the one above although it
 begins at a tab stop

---
 pdf2docx/text/Lines.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 3f16a07..11102ba 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -323,6 +323,11 @@ class Lines(Collection):
             elif line.in_same_row(self._instances[i+1]):
                 line.line_break = 0
             
+            # break line if next row starts at a tab stop, which isn't in this row
+            elif block.tab_stops and \
+                abs(self._instances[i+1].bbox[idx0]-block.bbox[idx0])>=constants.MINOR_DIST:
+                line.line_break = 1
+
             # break line if free space exceeds a threshold
             elif (abs(block.bbox[idx]-line.bbox[idx]) + delta_space) / width > line_free_space_ratio_threshold:
                 line.line_break = 1
-- 
2.43.0


From 6c51592430dc3ac7cd536ca2388dbef4f1e82922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:29 +0000
Subject: [PATCH 57/70] fix: short rows of a centered paragraph were joined

---
 pdf2docx/text/Lines.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 11102ba..b6368ff 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -316,6 +316,9 @@ class Lines(Collection):
             delta_space = block.right_space_total - block.right_space
             idx = idx1        
 
+        # free space on both sides of a centered row
+        sides = 2 if block.alignment == TextAlignment.CENTER else 1
+
         for i, line in enumerate(self._instances):            
             if line==self._instances[-1]: # no more lines after last line
                 line.line_break = 0
@@ -329,7 +332,7 @@ class Lines(Collection):
                 line.line_break = 1
 
             # break line if free space exceeds a threshold
-            elif (abs(block.bbox[idx]-line.bbox[idx]) + delta_space) / width > line_free_space_ratio_threshold:
+            elif sides*(abs(block.bbox[idx]-line.bbox[idx]) + delta_space) / width > line_free_space_ratio_threshold:
                 line.line_break = 1
             
             # break line if next line is a only a space (otherwise, MS Word leaves it in previous line)
-- 
2.43.0


From f00e7649a618dbc906819038ae4b878211d1930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:12 +0000
Subject: [PATCH 58/70] fix: pieces of text going upwards were put out in
 reverse order

---
 pdf2docx/common/Collection.py | 4 ++--
 pdf2docx/page/Blocks.py       | 2 ++
 pdf2docx/text/Lines.py        | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/common/Collection.py b/pdf2docx/common/Collection.py
index 21bcaa3..1e276f9 100644
--- a/pdf2docx/common/Collection.py
+++ b/pdf2docx/common/Collection.py
@@ -224,7 +224,7 @@ class Collection(BaseCollection, IText):
         if self.is_horizontal_text:
             self._instances.sort(key=lambda e: (e.bbox.y0, e.bbox.x0, e.bbox.x1))
         else:
-            self._instances.sort(key=lambda e: (e.bbox.x0, e.bbox.y1, e.bbox.y0))
+            self._instances.sort(key=lambda e: (e.bbox.x0, -e.bbox.y1, -e.bbox.y0))
         return self
 
 
@@ -235,7 +235,7 @@ class Collection(BaseCollection, IText):
         if self.is_horizontal_text:
             self._instances.sort(key=lambda e: (e.bbox.x0, e.bbox.y0, e.bbox.x1))
         else:
-            self._instances.sort(key=lambda e: (e.bbox.y1, e.bbox.x0, e.bbox.y0))
+            self._instances.sort(key=lambda e: (-e.bbox.y1, e.bbox.x0, -e.bbox.y0))
         return self
 
    
diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index eb83ec9..75be5c9 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -485,6 +485,8 @@ class Blocks(Collection):
             if block.is_text_image_block() and block.is_flow_layout(*args):
                 lines.extend(block.lines)
             else:
+                # NOTE: lines were sorted along with horizontal text in page level
+                if block.is_text_image_block() and block.is_vertical_text: block.lines.sort()
                 blocks.append(block)
         
         # regroup lines
diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index b6368ff..3e28a36 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -191,10 +191,11 @@ class Lines(Collection):
                 lines_in_rows[-1].append(line)
         
         # sort lines in each row: consider text direction
-        idx = 0 if self.is_horizontal_text else 3
+        # NOTE: vertical text is from bottom to top
+        idx, f = (0, 1) if self.is_horizontal_text else (3, -1)
         self._instances = []
         for row in lines_in_rows:
-            row.sort(key=lambda line: line.bbox[idx])
+            row.sort(key=lambda line: line.bbox[idx]*f)
             self._instances.extend(row)
 
 
-- 
2.43.0


From 72024e91e43ae41a4ad430d453a77ef51c1a1e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:29 +0000
Subject: [PATCH 59/70] fix: text and pictures over the side of a table cell
 were put out twice or lost

---
 pdf2docx/common/Element.py   | 12 ++++++++++++
 pdf2docx/image/ImageSpan.py  |  7 +++----
 pdf2docx/table/Cell.py       | 37 ++++++++++++++++++------------------
 pdf2docx/table/TableBlock.py | 33 +++++++++++++++++++++++++++-----
 pdf2docx/text/TextSpan.py    |  2 +-
 5 files changed, 62 insertions(+), 29 deletions(-)

diff --git a/pdf2docx/common/Element.py b/pdf2docx/common/Element.py
index 7b93b60..3b4bcce 100644
--- a/pdf2docx/common/Element.py
+++ b/pdf2docx/common/Element.py
@@ -160,6 +160,18 @@ class Element(IText):
             return self.bbox.height+constants.MINOR_DIST >= e.bbox.height
    
 
+    def is_centered_in(self, rect):
+        '''Whether the center of this instance is in target rect.
+        
+        .. note::
+            The left and top edges are considered as part of the rect, but the right and bottom edges not, 
+            so it's in only one of adjacent rects.
+        '''
+        x = (self.bbox.x0+self.bbox.x1)/2.0
+        y = (self.bbox.y0+self.bbox.y1)/2.0
+        return rect[0]<=x<rect[2] and rect[1]<=y<rect[3]
+
+
     def get_main_bbox(self, e, threshold:float=0.95):
         """If the intersection with ``e`` exceeds the threshold, return the union of these two elements; else return None.
 
diff --git a/pdf2docx/image/ImageSpan.py b/pdf2docx/image/ImageSpan.py
index 9c8e456..ccfd92d 100644
--- a/pdf2docx/image/ImageSpan.py
+++ b/pdf2docx/image/ImageSpan.py
@@ -3,7 +3,6 @@
 '''Image span based on same raw data structure with Image block.
 '''
 
-from ..common import constants
 from .Image import Image
 
 
@@ -20,10 +19,10 @@ class ImageSpan(Image):
             rect (fitz.Rect): Target bbox.
         
         Returns:
-            ImageSpan: A copy of itself if intersects with target; otherwise empty ImageSpan. 
+            ImageSpan: A copy of itself if its center is in target; otherwise empty ImageSpan. 
         '''
-        # add image span if most of of the image is contained in bbox
-        if self.get_main_bbox(rect, constants.FACTOR_MAJOR):
+        # add image span if the center of the image is contained in bbox
+        if self.is_centered_in(rect):
             return self.copy()
         
         # otherwise, ignore image
diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index 652e1cc..e8c1a3b 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -94,40 +94,39 @@ class Cell(Element):
         self.layout.blocks.plot(page)
 
 
-    def assign_blocks(self, blocks:list):
-        '''Add blocks to this cell. 
+    def assign_block(self, block):
+        '''Add block to this cell if contained in cell. 
         
         Args:
-            blocks (list): a list of text/table block to add.
-        
-        .. note::
-            If a text block is partly contained in a cell, it must deep into line -> span -> char.
+            block (TableBlock): Table block to add. 
         '''
-        for block in blocks: self._assign_block(block)
-    
+        if self.contains(block, constants.FACTOR_ALMOST):
+            self.layout.blocks.append(block)
+
 
-    def _assign_block(self, block):
-        '''Add block to this cell. 
+    def assign_text_block(self, block, owners:list, region):
+        '''Add text block, or its lines in this cell only. 
         
         Args:
-            block (TextBlock, TableBlock): Text/table block to add. 
+            block (TextBlock): Text block to add.
+            owners (list): The cell containing each line of this block, or None if crossing cells.
+            region (tuple): Region of this cell for splitting the lines crossing cells.
+        
+        .. note::
+            If a text block is partly contained in a cell, it must deep into line -> span -> char.
         '''
         # add block directly if fully contained in cell
-        if self.contains(block, constants.FACTOR_ALMOST):
+        if all(owner is self for owner in owners):
             self.layout.blocks.append(block)
             return
         
-        # add nothing if no intersection
-        if not intersection(self.bbox, block.bbox): return
-
         # otherwise, further check lines in text block
-        if not block.is_text_image_block():  return
-        
         # NOTE: add each line as a single text block to avoid overlap between table block and combined lines
+        lines = [line.copy() if owner is self else line.intersects(region) \
+                    for line, owner in zip(block.lines, owners) if owner is self or owner is None]
         split_block = TextBlock()
-        lines = [line.intersects(self.bbox) for line in block.lines]
         split_block.add(lines)
-        self.layout.blocks.append(split_block)
+        if split_block.lines: self.layout.blocks.append(split_block)
 
 
     def assign_shapes(self, shapes:list):
diff --git a/pdf2docx/table/TableBlock.py b/pdf2docx/table/TableBlock.py
index 039144e..25a95a5 100644
--- a/pdf2docx/table/TableBlock.py
+++ b/pdf2docx/table/TableBlock.py
@@ -31,10 +31,11 @@ Data Structure::
 '''
 
 
+import fitz
 from .Row import Row
 from .Rows import Rows
 from ..common.Block import Block
-from ..common import docx
+from ..common import docx, constants
 from ..common.share import BlockType
 
 
@@ -110,11 +111,33 @@ class TableBlock(Block):
 
         Args:
             blocks (list): A list of text/table blocks.
+        
+        .. note::
+            Each line belongs to the cell containing it, while a line crossing cells is split by chars: each
+            char belongs to the cell with its center. Beyond the table, it's counted on the nearest cell.
         '''
-        for row in self._rows:
-            for cell in row:
-                if not cell: continue
-                cell.assign_blocks(blocks)
+        cells = [cell for row in self._rows for cell in row if cell]
+        if not cells: return
+
+        # region of each cell: extend the outer cells since lines may exceed the table slightly
+        x0, y0 = min(cell.bbox.x0 for cell in cells), min(cell.bbox.y0 for cell in cells)
+        x1, y1 = max(cell.bbox.x1 for cell in cells), max(cell.bbox.y1 for cell in cells)
+        far = 1e4
+        regions = [fitz.Rect(
+                    cell.bbox.x0-far*(cell.bbox.x0==x0), cell.bbox.y0-far*(cell.bbox.y0==y0),
+                    cell.bbox.x1+far*(cell.bbox.x1==x1), cell.bbox.y1+far*(cell.bbox.y1==y1)) for cell in cells]
+
+        for block in blocks:
+            # table block
+            if not block.is_text_image_block():
+                for cell in cells: cell.assign_block(block)
+                continue
+
+            # text block: the only cell containing each line
+            owners = [next((cell for cell in cells if cell.contains(line, constants.FACTOR_ALMOST)), None) \
+                        for line in block.lines]
+            for cell, region in zip(cells, regions):
+                cell.assign_text_block(block, owners, region)
 
 
     def assign_shapes(self, shapes:list):
diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 37a768c..7ad1a02 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -373,7 +373,7 @@ class TextSpan(Element):
         span.update_bbox((0.0,0.0,0.0,0.0))
 
         for char in self.chars:
-            if char.get_main_bbox(rect, constants.FACTOR_A_HALF): # contains at least a half part
+            if char.is_centered_in(rect): # contains at least a half part
                 span.chars.append(char)
                 span.union_bbox(char)
 
-- 
2.43.0


From cd70ad444d3e2d085682c94846fb60dbeec57d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:56 +0000
Subject: [PATCH 60/70] fix: tables across the cells of an implicit table were
 lost

---
 pdf2docx/table/Cell.py       | 12 +-----------
 pdf2docx/table/TableBlock.py |  5 +++--
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index e8c1a3b..f9634da 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -5,7 +5,7 @@
 
 from docx.shared import Pt
 from ..common.Element import Element
-from ..common import docx, constants
+from ..common import docx
 from ..common.share import intersection
 from ..text.TextBlock import TextBlock
 from ..page import Layout # avoid import conflict
@@ -94,16 +94,6 @@ class Cell(Element):
         self.layout.blocks.plot(page)
 
 
-    def assign_block(self, block):
-        '''Add block to this cell if contained in cell. 
-        
-        Args:
-            block (TableBlock): Table block to add. 
-        '''
-        if self.contains(block, constants.FACTOR_ALMOST):
-            self.layout.blocks.append(block)
-
-
     def assign_text_block(self, block, owners:list, region):
         '''Add text block, or its lines in this cell only. 
         
diff --git a/pdf2docx/table/TableBlock.py b/pdf2docx/table/TableBlock.py
index 25a95a5..1fb8882 100644
--- a/pdf2docx/table/TableBlock.py
+++ b/pdf2docx/table/TableBlock.py
@@ -128,9 +128,10 @@ class TableBlock(Block):
                     cell.bbox.x1+far*(cell.bbox.x1==x1), cell.bbox.y1+far*(cell.bbox.y1==y1)) for cell in cells]
 
         for block in blocks:
-            # table block
+            # table block: can't be split, so the cell containing most of it
             if not block.is_text_image_block():
-                for cell in cells: cell.assign_block(block)
+                cell = max(cells, key=lambda cell: (cell.bbox & block.bbox).getArea())
+                cell.layout.blocks.append(block)
                 continue
 
             # text block: the only cell containing each line
-- 
2.43.0


From 311ffe81ac513d4e4e5d443f93203d9a3744c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:06 +0000
Subject: [PATCH 61/70] fix: blocks beside a tall block of a row not taken to
 that row

---
 pdf2docx/page/Blocks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 75be5c9..98a1ddf 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -271,6 +271,7 @@ class Blocks(Collection):
         res = [] # type: list[Lines]
         j = 0
         table_lines = Lines() # potential text lines in a table
+        row = Block() # bbox of blocks in current row
         new_line = True
         num_blocks, num_shadings = len(self._instances), len(shadings_exclude_white)
         for i in range(num_blocks):
@@ -300,7 +301,9 @@ class Blocks(Collection):
 
             # (c) multi-blocks are in a same row: check layout with next block?
             # yes, add both current and next blocks
-            if block.horizontally_align_with(next_block, factor=0):
+            row.union_bbox(block)
+            if block.horizontally_align_with(next_block, factor=0) or \
+                row.horizontally_align_with(next_block, factor=0):
                 # if it's start of new table row: add the first block
                 if new_line: table_lines.extend(sub_lines(block))
                 
@@ -317,6 +320,7 @@ class Blocks(Collection):
 
                 # update line status            
                 new_line = True
+                row = Block()
 
             # NOTE: close table detecting manually if last block
             if i==num_blocks-1: table_end = True
-- 
2.43.0


From fa0bd0d8069d5d21e34563a3e0dcd71559d27ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:40 +0000
Subject: [PATCH 62/70] fix: layout table of a two-column page overlapping the
 text above

---
 pdf2docx/table/TablesConstructor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index 36b79d8..1587d99 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -82,7 +82,9 @@ class TablesConstructor:
 
         # create dummy strokes for table parsing        
         m0, m1 = (x0+u0)/2.0, (x1+u1)/2.0
-        n0, n1 = v0-constants.MAJOR_DIST, v1+constants.MAJOR_DIST        
+        # NOTE: table should not exceed the closest elements on the top or bottom side
+        n0 = max([e.bbox[3] for e in span_elements if e.bbox[3]<v0] + [v0-constants.MAJOR_DIST])
+        n1 = min([e.bbox[1] for e in span_elements if e.bbox[1]>v1] + [v1+constants.MAJOR_DIST])
         strokes = [
             Stroke().update_bbox((m0, n0, m1, n0)), # top
             Stroke().update_bbox((m0, n1, m1, n1)), # bottom
-- 
2.43.0


From 56f61783e6f13b49192cd3d614241e11305d3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:31 +0000
Subject: [PATCH 63/70] fix: text below a shading beside other text moved to
 the next row

---
 pdf2docx/table/Border.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/table/Border.py b/pdf2docx/table/Border.py
index e575578..e9b2f59 100644
--- a/pdf2docx/table/Border.py
+++ b/pdf2docx/table/Border.py
@@ -189,7 +189,9 @@ class Border:
         if not self.is_valid(value): return
 
         # skip if not span in the border direction
-        if low_pos > self._LBorder.URange and upper_pos < self._UBorder.LRange: return
+        # NOTE: a reference border splits the content of a cell, so never count a stroke spanning it partly
+        outside = (low_pos > self._LBorder.URange, upper_pos < self._UBorder.LRange)
+        if all(outside) or (self.is_reference and any(outside)): return
 
         # now, finalize current border
         # NOTE: set border properties only if finalized by value successfully
-- 
2.43.0


From 6fe42c49cca718f1deec02253f42818e0af909de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:12 +0000
Subject: [PATCH 64/70] fix: words of turned text cut by the rows of an
 implicit table

---
 pdf2docx/text/Lines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 3e28a36..6d03d97 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -249,7 +249,9 @@ class Lines(Collection):
     def group_by_rows(self):
         '''Group lines into rows.'''
         # split in rows, with original text block considered
-        fun = lambda a,b: a.horizontally_align_with(b, factor=constants.FACTOR_A_FEW)
+        # NOTE: no common reading direction if only one of the lines is turned
+        fun = lambda a,b: a.horizontally_align_with(b, factor=constants.FACTOR_A_FEW,
+                                        text_direction=a.is_horizontal_text==b.is_horizontal_text)
         groups = self.group(fun)
 
         # NOTE: increasing in y-direction is required!
-- 
2.43.0


From 01c0e67da5011ed482bf1f66d1ee9e139f7c5234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:56 +0000
Subject: [PATCH 65/70] fix: partly transparent pixels of pictures became
 opaque

---
 pdf2docx/image/ImagesExtractor.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 965d4e9..c0c7549 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -279,6 +279,12 @@ class ImagesExtractor:
         # base image
         pix = fitz.Pixmap(doc, x)
 
+        # we may need to adjust something for CMYK pixmaps here -> 
+        # recreate pixmap in RGB color space if necessary
+        # NOTE: pix.colorspace may be None for images with alpha channel values only
+        if pix.colorspace and not pix.colorspace.name in (fitz.csGRAY.name, fitz.csRGB.name):
+            pix = fitz.Pixmap(fitz.csRGB, pix)
+
         # reconstruct the alpha channel with the smask if exists
         if s > 0:        
             # the mask may have its own resolution -> use the higher one for both
@@ -290,16 +296,7 @@ class ImagesExtractor:
             pix = fitz.Pixmap(pix, 1)  
             
             # create pixmap of the /SMask entry
-            ba = bytearray(mask.samples)
-            for i in range(len(ba)):
-                if ba[i] > 0: ba[i] = 255
-            pix.setAlpha(ba)
-
-        # we may need to adjust something for CMYK pixmaps here -> 
-        # recreate pixmap in RGB color space if necessary
-        # NOTE: pix.colorspace may be None for images with alpha channel values only
-        if pix.colorspace and not pix.colorspace.name in (fitz.csGRAY.name, fitz.csRGB.name):
-            pix = fitz.Pixmap(fitz.csRGB, pix)
+            pix.setAlpha(mask.samples)
 
         return pix
 
-- 
2.43.0


From 98308a4184f4d04be3588d17974a8780725cdce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:56 +0000
Subject: [PATCH 66/70] fix: pages with pictures in special colours
 (Separation, DeviceN) failed

---
 pdf2docx/image/ImagesExtractor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index c0c7549..156da81 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -281,8 +281,10 @@ class ImagesExtractor:
 
         # we may need to adjust something for CMYK pixmaps here -> 
         # recreate pixmap in RGB color space if necessary
-        # NOTE: pix.colorspace may be None for images with alpha channel values only
-        if pix.colorspace and not pix.colorspace.name in (fitz.csGRAY.name, fitz.csRGB.name):
+        # NOTE: pix.colorspace may be None for images with alpha channel values only; and special colors
+        # (a palette might be based on) can't be distinguished from gray by the name of pix.colorspace
+        if pix.colorspace and (item[5] in ('Separation', 'DeviceN', 'Indexed') or 
+                not pix.colorspace.name in (fitz.csGRAY.name, fitz.csRGB.name)):
             pix = fitz.Pixmap(fitz.csRGB, pix)
 
         # reconstruct the alpha channel with the smask if exists
-- 
2.43.0


From f8d4e0697f39ad662d4b0fe3d79a7fddbfb031f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:47 +0000
Subject: [PATCH 67/70] fix: drawings lost if a resource is named like a text
 operator

---
 pdf2docx/image/ImagesExtractor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 156da81..bcd31f9 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -10,6 +10,7 @@ Both raster images and vector graphics are considered:
   ``re``, ``m``, ``l`` and ``c``. They're detected by finding the contours with ``opencv``.
 '''
 
+import re
 import fitz
 from ..common.share import BlockType, intersection
 from ..common.Collection import Collection
@@ -222,9 +223,8 @@ class ImagesExtractor:
         streams = {}
         for xref in page.get_contents():
             streams[xref] = doc.xrefStream(xref)
-            stream = streams[xref].replace(b'BT', b'BT 3 Tr') \
-                                             .replace(b'Tm', b'Tm 3 Tr') \
-                                             .replace(b'Td', b'Td 3 Tr')
+            # NOTE: operators only, rather than part of a name, e.g. /BT1
+            stream = re.sub(rb'(?<![^\s\])>}])(BT|Tm|Td)(?![^\s\[(<{/%])', rb'\1 3 Tr', streams[xref])
             doc.updateStream(xref, stream)
         return streams
 
-- 
2.43.0


From 54ae3ee6edf762e62bdd43dd743a061dc9bdebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:49 +0000
Subject: [PATCH 68/70] fix: text in form xobjects was put out as pictures,
 too, on pages with drawings

---
 pdf2docx/image/ImagesExtractor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index bcd31f9..31e0f81 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -221,10 +221,12 @@ class ImagesExtractor:
         # - https://www.adobe.com/content/dam/acom/en/devnet/pdf/pdfs/pdf_reference_archives/PDFReference.pdf
         doc = page.parent
         streams = {}
-        for xref in page.get_contents():
+        # NOTE: text may be shown by form xobjects as well
+        forms = [item[0] for item in doc.getPageXObjectList(page.number)]
+        for xref in page.get_contents() + forms:
             streams[xref] = doc.xrefStream(xref)
             # NOTE: operators only, rather than part of a name, e.g. /BT1
-            stream = re.sub(rb'(?<![^\s\])>}])(BT|Tm|Td)(?![^\s\[(<{/%])', rb'\1 3 Tr', streams[xref])
+            stream = re.sub(rb'(?<![^\s\])>}])(BT|Tm|Td|TD|Tr)(?![^\s\[(<{/%])', rb'\1 3 Tr', streams[xref])
             doc.updateStream(xref, stream)
         return streams
 
-- 
2.43.0


From abbb956394dbd7be75d6552e11bc2b991a32efab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:59 +0000
Subject: [PATCH 69/70] fix: shading of empty table cells lost

---
 pdf2docx/table/TablesConstructor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index 1587d99..9330ff7 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -148,7 +148,8 @@ class TablesConstructor:
         grouped_strokes = remove_overlap(grouped_strokes) 
 
         # all filling shapes
-        fills = self._shapes.table_fillings
+        # NOTE: the shading of an empty cell contains no text, so it isn't counted in table_fillings
+        fills = Shapes(list(self._shapes.table_fillings) + list(self._shapes.text_highlights))
 
         # parse table with each group
         tables = Blocks()
-- 
2.43.0


From 6b9ba30e92a25c507da4a07afeb7798f87e5c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:40 +0000
Subject: [PATCH 70/70] fix: spans of which a shape covers less than half of a
 character got a wrong, even empty box

Restoring a stored layout dropped the span then.
---
 pdf2docx/text/TextSpan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 7ad1a02..a44cb0f 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -244,6 +244,9 @@ class TextSpan(Element):
         f = lambda items: items[1].contained_in_rect(rect, horizontal)
         index_chars = list(filter(f, enumerate(self.chars)))
 
+        # none of the chars is covered, then add this span as it is
+        if not index_chars: return [self]
+
         # then we get target chars in a sequence
         pos = index_chars[0][0] if index_chars else -1 # start index -1 if nothing found
         length = len(index_chars)
-- 
2.43.0

