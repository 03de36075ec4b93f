From df5dbb71ecb2f59bd8cfe977110847cdb55f83f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:56 +0000
Subject: [PATCH 01/47] fix: do not repeat tokens of previous lines when
 removing untagged tokens

---
 .../structured_document/grobid_training_tei.py                   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 42754dc..48dff30 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -720,6 +720,7 @@ class GrobidTrainingTeiStructuredDocument(AbstractStructuredDocument):
                 current_result_line_tokens.append(token)
             if current_result_line_tokens:
                 updated_lines.append(TeiLine(current_result_line_tokens))
+                current_result_line_tokens = []
         self._lines = updated_lines
 
     def __repr__(self):
-- 
2.43.0


From b17250a96fba52ffe193e849f22119079b649292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:17 +0000
Subject: [PATCH 02/47] fix: keep line breaks of namespaced documents and sub
 tags across line breaks

---
 .../structured_document/grobid_training_tei.py            | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 48dff30..029dde2 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -277,6 +277,10 @@ def has_direct_text(element: etree.Element) -> bool:
     return False
 
 
+def is_line_break_element(element: etree.Element) -> bool:
+    return etree.QName(element).localname == TeiTagNames.LB
+
+
 def _iter_extract_lines_from_element(
         parent_element: etree.Element,
         line_buffer: LineBuffer,
@@ -297,8 +301,10 @@ def _iter_extract_lines_from_element(
     LOGGER.debug('current_path: %s', current_path)
 
     for child_element in parent_element:
-        if child_element.tag == TeiTagNames.LB:
+        if is_line_break_element(child_element):
             yield line_buffer.flush()
+            line_buffer.append_text(child_element.tail)
+            continue
 
         child_path = current_path + [_node_to_tag_expression(child_element)]
         yield from _iter_extract_lines_from_element(
-- 
2.43.0


From ec47314d4936247643dfd10ac076dfb7ed096a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:37 +0000
Subject: [PATCH 03/47] fix: keep attributes of the annotated container element

---
 .../structured_document/grobid_training_tei.py                  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 029dde2..4edbc6a 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -550,7 +550,9 @@ def _updated_tei_with_lines(
         raise RuntimeError('container node path not found: %s (namespaces=%s) (has %s)' % (
             container_node_path, namespaces, list(updated_root)
         ))
+    container_attrib = dict(container_node.attrib)
     container_node.clear()
+    container_node.attrib.update(container_attrib)
     _lines_to_tei(container_node, lines, tag_to_tei_path_mapping)
     return updated_root
 
-- 
2.43.0


From fbd5c54c4d6b414a9bdf976f1ef5cbfd2a33f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:29 +0000
Subject: [PATCH 04/47] fix: do not split an element at a sub tag that is
 ignored

---
 .../structured_document/grobid_training_tei.py                   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 4edbc6a..616d49b 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -484,6 +484,7 @@ def _lines_to_tei(
                     'ignoring sub tag outside main path: %s (%s)',
                     sub_tag, sub_required_path
                 )
+                sub_prefix = None
                 sub_tag = None
                 sub_full_tag = None
                 sub_required_path = []
-- 
2.43.0


From ccb1d76eb82108c9026f8bf65fcdab1943c6d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:01 +0000
Subject: [PATCH 05/47] fix: recognise preserved page numbers with tag prefix
 when segmenting

---
 .../annotation/segmentation_annotator.py             | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
index 940d378..ce89196 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
@@ -138,6 +138,10 @@ def _get_line_token_tags_or_preserved_tags(
     ]
 
 
+def _get_line_token_tag_or_preserved_tag_values(*args, **kwargs) -> List[Optional[str]]:
+    return _to_tag_values(_get_line_token_tags_or_preserved_tags(*args, **kwargs))
+
+
 def _clear_line_token_tags(
         structured_document: GrobidTrainingTeiStructuredDocument, line):
     for token in structured_document.get_all_tokens_of_line(line):
@@ -233,10 +237,10 @@ def apply_preserved_page_numbers(
     segmentation_lines: SegmentationLineList
 ):
     for line in segmentation_lines.iter_untagged():
-        tags = _get_line_token_tags_or_preserved_tags(
+        tag_values = _get_line_token_tag_or_preserved_tag_values(
             line.structured_document, line.line
         )
-        if SegmentationTagNames.PAGE in tags:
+        if SegmentationTagNames.PAGE in tag_values:
             line.set_segmentation_tag(SegmentationTagNames.PAGE)
 
 
@@ -381,10 +385,10 @@ def merge_lines(
         if line.segmentation_tag:
             condidate_lines = []
             continue
-        tags = _get_line_token_tags_or_preserved_tags(
+        tag_values = _get_line_token_tag_or_preserved_tag_values(
             line.structured_document, line.line
         )
-        if preserve_tags and SegmentationTagNames.PAGE in tags:
+        if preserve_tags and SegmentationTagNames.PAGE in tag_values:
             continue
         if previous_segmentation_tag in enabled_tags:
             condidate_lines.append(line)
-- 
2.43.0


From 38a2cfa4a21a9d62f9d4f26970e9c9f5e3d84a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:27 +0000
Subject: [PATCH 06/47] fix: replace all preserved tags of a line, not only the
 first

---
 .../annotation/replace_tags_annotator.py                 | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/replace_tags_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/replace_tags_annotator.py
index 7db9961..e95723b 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/replace_tags_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/replace_tags_annotator.py
@@ -35,10 +35,13 @@ class ReplaceTagsPostProcessingAnnotator(AbstractAnnotator):
         super().__init__()
 
     def annotate(self, structured_document: GrobidTrainingTeiStructuredDocument):
-        all_tokens_iterable = iter_all_tokens_excluding_space(structured_document)
+        # changing the tag of a token may clear the preserved tag of other tokens on the same line
+        all_tokens_with_tag = [
+            (token, structured_document.get_tag_or_preserved_tag(token))
+            for token in iter_all_tokens_excluding_space(structured_document)
+        ]
         ignored_token_tag_values = set()
-        for token in all_tokens_iterable:
-            tag = structured_document.get_tag_or_preserved_tag(token)
+        for token, tag in all_tokens_with_tag:
             tag_prefix, tag_value = split_tag_prefix(tag)
             if not tag_value or tag_value not in self.config.replaced_tag_by_tag:
                 ignored_token_tag_values.add(tag_value)
-- 
2.43.0


From 6de8a8f531ec22e1f5066e925939ac16ac219b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:27 +0000
Subject: [PATCH 07/47] fix: do not find page numbers out of order

---
 .../annotation/segmentation_annotator.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
index ce89196..c1f5815 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
@@ -297,7 +297,7 @@ def find_missing_page_numbers(
                 continue
             LOGGER.debug('setting page number candidate: %s', page_number_candidate)
             page_number_candidate.line.set_segmentation_tag(SegmentationTagNames.PAGE)
-            min_page_number += 1
+            min_page_number = page_number_candidate.page_number + 1
         min_line_number = max_line_number
         min_page_number = max_page_number + 1
 
-- 
2.43.0


From 7d83b7136eb862a84b20bdf8382beac3111a3f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 08/47] fix: do not share temporary source files between files
 processed in parallel

---
 .../auto_annotate_figure.py                      |  8 +++-----
 .../auto_annotate_fulltext.py                    |  7 +++----
 .../auto_annotate_utils.py                       | 16 ++++++++++------
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py b/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
index 8a14e86..d08d431 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
@@ -3,7 +3,7 @@ from __future__ import absolute_import
 import argparse
 import logging
 import os
-from contextlib import contextmanager
+from contextlib import ExitStack, contextmanager
 from tempfile import TemporaryDirectory
 from typing import Iterator, List
 
@@ -132,10 +132,8 @@ class AnnotatePipelineFactory(AbstractAnnotatePipelineFactory):
                 self.tag_to_tei_path_mapping[field] = 'note[@type="%s"]' % field
         self.annotator_config.use_sub_annotations = True
 
-    def get_final_source_url(self, source_url: str) -> str:
-        final_source_url_context = get_fixed_source_url(source_url)
-        self.file_exit_stack.push(final_source_url_context)
-        return final_source_url_context.__enter__()  # pylint: disable=no-member
+    def get_final_source_url(self, source_url: str, file_exit_stack: ExitStack) -> str:
+        return file_exit_stack.enter_context(get_fixed_source_url(source_url))
 
     def get_annotator(self, source_url: str):
         target_xml_path = self.get_target_xml_for_source_file(source_url)
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py b/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
index 97bb52e..a12f682 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 
 import argparse
 import logging
+from contextlib import ExitStack
 from typing import List
 
 from .core.annotation.annotator import AbstractAnnotator, Annotator
@@ -213,10 +214,8 @@ class AnnotatePipelineFactory(AbstractAnnotatePipelineFactory):
         self.expand_to_previous_untagged_lines = opt.expand_to_previous_untagged_lines
         self.expand_to_following_untagged_lines = opt.expand_to_following_untagged_lines
 
-    def get_final_source_url(self, source_url: str) -> str:
-        final_source_url_context = get_fixed_source_url(source_url)
-        self.file_exit_stack.push(final_source_url_context)
-        return final_source_url_context.__enter__()  # pylint: disable=no-member
+    def get_final_source_url(self, source_url: str, file_exit_stack: ExitStack) -> str:
+        return file_exit_stack.enter_context(get_fixed_source_url(source_url))
 
     def get_annotator(self, source_url: str):
         target_xml_path = self.get_target_xml_for_source_file(source_url)
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 4666bd2..cea3547 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -599,7 +599,6 @@ class AbstractAnnotatePipelineFactory(ABC):
                 line_number_ratio_threshold=opt.min_line_number_ratio,
             )
         )
-        self.file_exit_stack = ExitStack()
 
     @abstractmethod
     def get_annotator(self, source_url: str):
@@ -642,17 +641,22 @@ class AbstractAnnotatePipelineFactory(ABC):
             target_annotations=target_annotations
         )
 
-    def get_final_source_url(self, source_url: str) -> str:
+    def get_final_source_url(
+        self,
+        source_url: str,
+        file_exit_stack: ExitStack  # pylint: disable=unused-argument
+    ) -> str:
         return source_url
 
     def auto_annotate(self, source_url: str):
-        with self.file_exit_stack:
-            self._auto_annotate(source_url)
+        # the exit stack must not be shared, multiple files may be processed in parallel
+        with ExitStack() as file_exit_stack:
+            self._auto_annotate(source_url, file_exit_stack)
 
-    def _auto_annotate(self, source_url: str):
+    def _auto_annotate(self, source_url: str, file_exit_stack: ExitStack):
         try:
             output_xml_path = self.get_tei_xml_output_file_for_source_file(source_url)
-            final_source_url = self.get_final_source_url(source_url)
+            final_source_url = self.get_final_source_url(source_url, file_exit_stack)
             annotator = self.get_annotator(final_source_url)
             annotate_structured_document(
                 final_source_url,
-- 
2.43.0


From 2820a78429beec051af1cc484ee32aa907c1f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:21 +0000
Subject: [PATCH 09/47] fix: do not leave incomplete output files behind when
 interrupted

---
 .../structured_document/grobid_training_tei.py              | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 616d49b..1445dc6 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -752,4 +752,8 @@ def save_grobid_training_tei_structured_document(
         xml = etree.tostring(grobid_training_tei_structured_document.root)
     except Exception as e:
         raise RuntimeError('failed to convert to xml for %s due to %s' % (filename, e)) from e
-    save_file_content(filename, xml)
+    # an incomplete file must not be mistaken for the output (e.g. when resuming)
+    dirname, basename = FileSystems.split(filename)
+    temp_filename = FileSystems.join(dirname, '.tmp-' + basename)
+    save_file_content(temp_filename, xml)
+    FileSystems.rename([temp_filename], [filename])
-- 
2.43.0


From 5c470790786ba94594594d0177d6527bc82db90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:00 +0000
Subject: [PATCH 10/47] fix: accept xml declaration with encoding when fixing
 xml

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 9c76fed..1922594 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -221,7 +221,8 @@ class FixingHtmlParser(HTMLParser):
 def get_fixed_xml_str(xml_str: str) -> str:
     try:
         # return passed in xml if it is valid
-        etree.fromstring(xml_str)
+        # (using bytes because a str must not have an encoding declaration)
+        etree.fromstring(xml_str.encode('utf-8'))
         LOGGER.debug('passed in xml is valid, returning as is')
         return xml_str
     except etree.XMLSyntaxError:
-- 
2.43.0


From e78512c4f8823194e8cba49c8b8da3e342f28e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 11/47] fix: close the element itself after closing its
 unclosed children when fixing xml

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 1922594..9ae6b41 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -207,6 +207,7 @@ class FixingHtmlParser(HTMLParser):
                 tag, self._current_tag
             )
             self._close_current_element()
+        self._close_current_element()
 
     def handle_data(self, data):
         LOGGER.debug('endtag: data=%r', data)
-- 
2.43.0


From bab2ac5e9069f5da7e03048b9b94919874597f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:17 +0000
Subject: [PATCH 12/47] fix: keep the case of element and attribute names when
 fixing xml

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 9ae6b41..5f886b8 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -1,5 +1,6 @@
 import logging
 import os
+import re
 import xml.sax.saxutils
 from contextlib import contextmanager
 from html.parser import HTMLParser
@@ -160,6 +161,11 @@ def get_xpath_text(root: etree.Element, xpath: str, delimiter: str = ' ', **kwar
     return delimiter.join(get_xpath_text_list(root, xpath, **kwargs))
 
 
+START_TAG_NAMES_REGEX = re.compile(
+    r'([^\s<>/="\']+)(?:\s*=\s*(?:"[^"]*"|\'[^\']*\'|[^\s>]*))?'
+)
+
+
 class FixingHtmlParser(HTMLParser):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
@@ -169,7 +175,15 @@ class FixingHtmlParser(HTMLParser):
     def error(self, message):
         raise RuntimeError('parser error: %r' % message)
 
+    def _get_original_tag_and_attrs(self, tag, attrs):
+        # HTMLParser converts the names to lower case
+        names = START_TAG_NAMES_REGEX.findall(self.get_starttag_text())
+        if [name.lower() for name in names] != [tag] + [key for key, _ in attrs]:
+            return tag, attrs
+        return names[0], [(name, value) for name, (_, value) in zip(names[1:], attrs)]
+
     def handle_starttag(self, tag, attrs):
+        tag, attrs = self._get_original_tag_and_attrs(tag, attrs)
         LOGGER.debug('starttag: tag=%r, attrs=%s', tag, attrs)
         self.buffer.write(f'<{tag}')
         for key, value in attrs:
@@ -187,21 +201,25 @@ class FixingHtmlParser(HTMLParser):
     def _current_tag(self):
         return self.tag_stack[-1]
 
+    @property
+    def _current_lower_tag(self):
+        return self._current_tag.lower()
+
     def handle_endtag(self, tag):
         if not self.tag_stack:
             LOGGER.warning('attempting to close element without any open elements, tag=%r', tag)
             return
-        if tag == self._current_tag:
+        if tag == self._current_lower_tag:
             self._close_current_element()
             return
-        if tag not in self.tag_stack:
+        if tag not in {open_tag.lower() for open_tag in self.tag_stack}:
             LOGGER.warning(
                 'end tag tag=%r not matching any open element, closing tag=%r',
                 tag, self._current_tag
             )
             self._close_current_element()
             return
-        while tag != self._current_tag:
+        while tag != self._current_lower_tag:
             LOGGER.warning(
                 'end tag tag=%r not matching immediate open element, first closing tag=%r',
                 tag, self._current_tag
-- 
2.43.0


From 99a666b2102afac68025c9319101998bb1c5edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:27 +0000
Subject: [PATCH 13/47] fix: keep all of the content when fixing xml

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 5f886b8..a473a04 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -167,6 +167,10 @@ START_TAG_NAMES_REGEX = re.compile(
 
 
 class FixingHtmlParser(HTMLParser):
+    # in XML there are no elements (like the HTML title or style) that only contain text
+    CDATA_CONTENT_ELEMENTS = ()
+    RCDATA_CONTENT_ELEMENTS = ()
+
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.buffer = StringIO()
@@ -187,7 +191,7 @@ class FixingHtmlParser(HTMLParser):
         LOGGER.debug('starttag: tag=%r, attrs=%s', tag, attrs)
         self.buffer.write(f'<{tag}')
         for key, value in attrs:
-            quoted_value = xml.sax.saxutils.quoteattr(value)
+            quoted_value = xml.sax.saxutils.quoteattr(value or '')
             self.buffer.write(f' {key}={quoted_value}')
         self.buffer.write('>')
         self.tag_stack.append(tag)
@@ -231,6 +235,10 @@ class FixingHtmlParser(HTMLParser):
         LOGGER.debug('endtag: data=%r', data)
         self.buffer.write(xml.sax.saxutils.escape(data))
 
+    def unknown_decl(self, data):
+        if data.startswith('CDATA['):
+            self.handle_data(data[len('CDATA['):])
+
     def close(self) -> None:
         super().close()
         while self.tag_stack:
-- 
2.43.0


From 076e92202548a9f321344bb100f9515c9a67ba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:56 +0000
Subject: [PATCH 14/47] fix: do not close the root element by an unmatched end
 tag when fixing xml

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index a473a04..3400c24 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -217,6 +217,10 @@ class FixingHtmlParser(HTMLParser):
             self._close_current_element()
             return
         if tag not in {open_tag.lower() for open_tag in self.tag_stack}:
+            if len(self.tag_stack) == 1:
+                # there is likely more content, which needs to remain within the root element
+                LOGGER.warning('end tag tag=%r not matching root element, ignoring', tag)
+                return
             LOGGER.warning(
                 'end tag tag=%r not matching any open element, closing tag=%r',
                 tag, self._current_tag
-- 
2.43.0


From 3a3bbf19f9effb311e6d57b1b9d44c2a0c43068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:53 +0000
Subject: [PATCH 15/47] fix: apply the line number options of the command lines
 (ratio, gap)

---
 sciencebeam_trainer_grobid_tools/auto_annotate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index cea3547..7e5363b 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -237,7 +237,7 @@ def add_annotation_pipeline_arguments(
         ])
     )
     line_no_group.add_argument(
-        '--min-line-number-ratio', type=str,
+        '--min-line-number-ratio', type=float,
         default=DEFAULT_LINE_NUMBER_RATIO_THRESHOLD,
         help=' '.join([
             'minimum ratio of line number candidates vs non-line number tokens',
@@ -596,6 +596,7 @@ class AbstractAnnotatePipelineFactory(ABC):
             use_line_number_annotator=opt.use_line_number_annotator,
             line_number_annotator_config=TextLineNumberAnnotatorConfig(
                 min_line_number=opt.min_line_numbers_per_page,
+                max_line_number_gap=opt.max_line_number_gap,
                 line_number_ratio_threshold=opt.min_line_number_ratio,
             )
         )
-- 
2.43.0


From 9621ed992897108154c0ef3b9810e364afd72dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:59 +0000
Subject: [PATCH 16/47] fix: locate the chunks of a text beyond the first
 search window

---
 sciencebeam_trainer_grobid_tools/utils/fuzzy.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
index 4596f99..d836557 100644
--- a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
+++ b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
@@ -392,6 +392,7 @@ def get_str_left_strided_matching_blocks_chunks(
         ):
             start_index += stride
             continue
+        matching_blocks = get_offset_matching_blocks(matching_blocks, a_offset=start_index)
         if (
             get_matching_blocks_b_gap_ratio(
                 haystack, needle, matching_blocks, isjunk=isjunk
@@ -423,7 +424,9 @@ def get_str_left_strided_matching_blocks_chunks(
                     first_chunk_matching_blocks, 1
                 )
                 remaining_needle = needle[first_chunk_needle_end:]
-                remaining_start_index = start_index + first_chunk_needle_end
+                remaining_start_index = get_matching_blocks_end_offset(
+                    first_chunk_matching_blocks, 0
+                )
             else:
                 assert last_chunk_matching_blocks
                 first_chunk_needle_start = get_required_matching_blocks_start_offset(
@@ -456,12 +459,7 @@ def get_str_left_strided_matching_blocks_chunks(
                 )
                 for remaining_matching_blocks in remaining_matching_blocks_chunks
             ]
-        if not start_index:
-            return [matching_blocks]
-        return [[
-            (ai + start_index, bi, size)
-            for ai, bi, size in matching_blocks
-        ]]
+        return [matching_blocks]
     return []
 
 
-- 
2.43.0


From 366a664eb74e391ff1d7a6e79eeee3632b010405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:16 +0000
Subject: [PATCH 17/47] fix: restore the labels when only annotating sub tags

---
 sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
index e214e7b..f103867 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
@@ -43,7 +43,6 @@ class SubTagOnlyAnnotator(SimpleMatchingAnnotator):
         super().annotate(structured_document)
         # restore original tags (but now with auto-annotated sub-tags)
         for token, preserved_tag in token_preserved_tags:
-            preserved_tag = structured_document.get_tag_or_preserved_tag(token)
             LOGGER.debug('restoring preserved tag: %r -> %r', token, preserved_tag)
             structured_document.set_tag_only(token, preserved_tag)
         return structured_document
-- 
2.43.0


From 99831653c1912b64f9ac57592e26445ef21ec972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:28 +0000
Subject: [PATCH 18/47] fix: match the label in front of a field whatever its
 case

---
 .../annotation/simple_matching_annotator.py                   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
index 90a53ca..3ec4b32 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
@@ -37,6 +37,7 @@ from sciencebeam_trainer_grobid_tools.annotation.matching_utils import (
     SequencesText,
     join_tokens_text,
     normalise_and_remove_junk_str,
+    normalise_str,
     normalise_str_or_list,
     normalise_and_remove_junk_str_or_list
 )
@@ -448,7 +449,8 @@ class SimpleMatchingAnnotator(AbstractAnnotator):
             for sub_annotation in sub_annotations:
                 if isinstance(sub_annotation.value, list):
                     continue
-                placeholders[sub_annotation.name] = sub_annotation.value
+                # the text to match has been normalised
+                placeholders[sub_annotation.name] = normalise_str(sub_annotation.value)
         return placeholders
 
     def resolve_regex_placeholders(self, regex_pattern: str, placeholders: Dict[str, str]) -> str:
-- 
2.43.0


From a4441fe1f00635dc8a18f08ff202f9bd02c4d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:06 +0000
Subject: [PATCH 19/47] fix: label the right tokens with sub annotations if
 lower case changes the length

---
 .../annotation/simple_matching_annotator.py                 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
index 3ec4b32..b94b60f 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
@@ -528,8 +528,10 @@ class SimpleMatchingAnnotator(AbstractAnnotator):
         LOGGER.debug('processing sub annotations: %s', sub_annotations)
         tokens = list(text.iter_tokens_between(index_range))
         LOGGER.debug('sub_tokens: %s', tokens)
-        sub_text = SequencesText([SequenceWrapper(structured_document, tokens)])
-        sub_text_str = str(sub_text).lower()
+        sub_text = SequencesText([
+            SequenceWrapper(structured_document, tokens, str_filter_f=str.lower)
+        ])
+        sub_text_str = str(sub_text)
         LOGGER.debug('sub_text_str: %r', sub_text_str)
         for sub_annotation in sub_annotations:
             sub_tag_name = sub_annotation.name
-- 
2.43.0


From 521d1d1d6699af07ba3aaa3847a1f4ef7b2d3a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:58 +0000
Subject: [PATCH 20/47] fix: separate the words of elements whose text has
 several lines

---
 .../annotation/target_annotation.py                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
index 35ff79e..ab42a2d 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
@@ -49,7 +49,7 @@ def contains_raw_text(element: etree.Element) -> bool:
 
 
 def is_ends_with_word(text: str) -> bool:
-    return re.match(r'.*\w$', text) is not None
+    return re.search(r'\w$', text) is not None
 
 
 def is_starts_with_word(text: str) -> bool:
-- 
2.43.0


From ab02a8ba4e87e95d38830637a726b3c6acf4055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:58 +0000
Subject: [PATCH 21/47] fix: do not take comments as text of a field

---
 .../core/annotation/target_annotation.py                    | 6 +++++-
 sciencebeam_trainer_grobid_tools/utils/xml.py               | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
index 9b9449a..eff9042 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
@@ -245,7 +245,11 @@ def extract_children(
     if unmatched_parent_text:
         value = get_stripped_text_content(
             parent,
-            exclude=set(other_child_nodes) | used_nodes
+            exclude=(
+                set(other_child_nodes)
+                | used_nodes
+                | set(parent.iter(etree.Comment, etree.PI))
+            )
         ).strip()
         if value and value not in text_content_list:
             text_content_list.append(value)
diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 3400c24..59651ee 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -33,7 +33,7 @@ def iter_text_content_and_exclude(
     if node.text is not None:
         yield node.text
     for child in node.iterchildren():
-        if child not in exclude:
+        if child not in exclude and child.tag not in (etree.Comment, etree.PI):
             yield from iter_text_content_and_exclude(child, exclude=exclude)
         if child.tail:
             yield child.tail
-- 
2.43.0


From 0befb1fc40b933a087fca08538e121d309b8b7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:58 +0000
Subject: [PATCH 22/47] fix: no empty values when extracting using a regular
 expression

---
 .../core/annotation/target_annotation.py                         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
index eff9042..df75237 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
@@ -298,6 +298,7 @@ def extract_using_regex(s, compiled_pattern):
         return s
     if start < len(s):
         result.append(s[start:].strip())
+    result = filter_truthy(result)
     if len(result) == 1:
         return result[0]
     # also include the full string
-- 
2.43.0


From 74355c62297a63f5f9d5064d617ef9471c940b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:58 +0000
Subject: [PATCH 23/47] fix: ignore a range with an empty first or last value

---
 .../core/annotation/target_annotation.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
index df75237..8f8946e 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
@@ -197,7 +197,7 @@ def extract_children_range(parent, children_range):
         )
         if len(temp_values) == 2:
             temp_values = strip_all(temp_values)
-            if all(s.isdigit() for s in temp_values):
+            if len(temp_values) == 2 and all(s.isdigit() for s in temp_values):
                 num_values = [int(s) for s in temp_values]
                 range_values = [str(x) for x in range(num_values[0], num_values[1] + 1)]
                 if range_item.get('standalone'):
-- 
2.43.0


From d64bffc570e7e3d1f9c2723fec10e6a9c298f2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:58 +0000
Subject: [PATCH 24/47] fix: keep the options of selected sub fields

---
 sciencebeam_trainer_grobid_tools/auto_annotate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 7e5363b..7b55d34 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -340,7 +340,7 @@ def get_sub_field_for_key_or_none(key: str) -> Optional[str]:
     sub_prefix = field_name + XmlMappingSuffix.SUB + '.'
     if not key.startswith(sub_prefix):
         return None
-    return key[len(sub_prefix):]
+    return key[len(sub_prefix):].split('.', maxsplit=1)[0]
 
 
 def is_key_selected_sub_fields_or_no_sub_field(
-- 
2.43.0


From 974cc72012f381ef50560e5ee37374c95850b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:58 +0000
Subject: [PATCH 25/47] fix: check documents of articles without any of the
 fields

---
 sciencebeam_trainer_grobid_tools/annotation/checks.py          | 2 +-
 sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/checks.py b/sciencebeam_trainer_grobid_tools/annotation/checks.py
index 2b05d30..71e3d93 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/checks.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/checks.py
@@ -143,7 +143,7 @@ def is_structured_document_passing_checks(
     require_matching_fields = set(require_matching_fields or set()) | set(required_fields or set())
     if not require_matching_fields:
         return True
-    if not target_annotations:
+    if target_annotations is None:
         raise RuntimeError('target_annotations required')
     required_value_by_name = get_required_target_value_by_name(
         target_annotations=target_annotations,
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py b/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py
index 4dfe9f1..8ec1cc3 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py
@@ -119,7 +119,7 @@ def is_segmentation_structured_document_passing_checks(
     require_matching_fields = set(require_matching_fields or set()) | set(required_fields or set())
     if not require_matching_fields:
         return True
-    if not target_annotations:
+    if target_annotations is None:
         raise RuntimeError('target_annotations required')
     required_value_by_name = get_required_target_value_by_name(
         target_annotations=target_annotations,
-- 
2.43.0


From 9c8dce3c321b4b5a0ef5d6f6a8a2c3f8a02f6582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:58 +0000
Subject: [PATCH 26/47] fix: check fields that are not in any segment

---
 .../auto_annotate_segmentation.py                             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py b/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py
index 8ec1cc3..e2c47d4 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py
@@ -141,7 +141,9 @@ def is_segmentation_structured_document_passing_checks(
         for field_name in field_names
     }
     for require_matching_field, required_value in required_value_by_name.items():
-        expected_entity_name = expected_entity_by_field_name[require_matching_field]
+        expected_entity_name = expected_entity_by_field_name.get(
+                require_matching_field, require_matching_field
+            )
         actual_entity_values = entities_by_name.get(expected_entity_name, [])
         if not actual_entity_values:
             LOGGER.warning(
-- 
2.43.0


From 1095a4e1c891f744b1587c2ae49edb7e561c0130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:07 +0000
Subject: [PATCH 27/47] fix: keep the text after a removed pub-id

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index f3b4917..82ecdac 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -221,7 +221,7 @@ def add_text_to_tail_prefix(current: etree.Element, text: str):
 
 
 def replace_element_with_text(current: etree.Element, text: str):
-    add_text_to_previous(current, text)
+    add_text_to_previous(current, text + (current.tail or ''))
     current.getparent().remove(current)
 
 
-- 
2.43.0


From 370bec93764a3f91d97cba97435c56da9afba925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:07 +0000
Subject: [PATCH 28/47] fix: keep the order of the text when adding sibling
 elements

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 82ecdac..34d0eaf 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -226,6 +226,8 @@ def replace_element_with_text(current: etree.Element, text: str):
 
 
 def add_next_sibling_element(element: etree.Element, new_element: etree.Element):
+    new_element.tail = ((new_element.tail or '') + (element.tail or '')) or None
+    element.tail = None
     element.getparent().insert(
         element.getparent().index(element) + 1,
         new_element
-- 
2.43.0


From 09925a9d2a993558b83382a611e4e6ab0bc2ccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:07 +0000
Subject: [PATCH 29/47] fix: keep the text of annotations with child elements

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 34d0eaf..b70e850 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -407,7 +407,8 @@ def change_annotation_to_matching_text(
         element: etree.Element,
         find_start_end_fn: Callable[[str], Optional[Tuple[int, int]]]):
     text = element.text
-    if text is None:
+    if text is None or len(element):
+        # the text of elements with children is not complete
         return
     start_end = find_start_end_fn(text)
     if not start_end:
-- 
2.43.0


From ed92a30ed02f888c93c2cddd1683759bfe25c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:07 +0000
Subject: [PATCH 30/47] fix: accept references with an empty doi or no text
 before it

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index b70e850..87f07f1 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -624,6 +624,8 @@ def fix_doi(reference_element: etree.Element):
 def replace_doi_annotation_with_ext_link_if_url(reference_element: etree.Element):
     for doi_element in reference_element.xpath(JatsXpaths.DOI):
         previous_text = get_previous_text(doi_element)
+        if not previous_text or not doi_element.text or len(doi_element):
+            continue
         start_end = find_doi_url_prefix_valid_start_end(previous_text)
         if not start_end:
             LOGGER.debug('not matching doi url prefix: %r', previous_text)
-- 
2.43.0


From d65f3dab630e5ccb1de96c8cbd03c0fbaf9b21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:07 +0000
Subject: [PATCH 31/47] fix: find the right quote of double quotes

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 87f07f1..110f11c 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -72,7 +72,7 @@ LEFT_QUOTE_CHARS = {'"', SpecialChars.LSQUO, SpecialChars.LDQUO}
 RIGHT_BY_LEFT_QUOTE_CHAR = {
     '"': '"',
     SpecialChars.LSQUO: SpecialChars.RSQUO,
-    SpecialChars.LDQUO: SpecialChars.RSQUO
+    SpecialChars.LDQUO: SpecialChars.RDQUO
 }
 
 
-- 
2.43.0


From d8fd74d949454e4de7722c35cbfc2be4a567eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:08 +0000
Subject: [PATCH 32/47] fix: stop after annotating an identifier in a comment

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 110f11c..03910be 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -509,7 +509,7 @@ def add_annotation_to_element_if_matching(
                 create_element_fn=create_element_fn,
                 as_next_sibling=True
             ):
-                break
+                return True
     return False
 
 
-- 
2.43.0


From aff9800ebae5a220b41d9a8664f72ba0d573da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:08 +0000
Subject: [PATCH 33/47] fix: keep the order of the text of comments with child
 elements

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 03910be..727c13f 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -507,7 +507,7 @@ def add_annotation_to_element_if_matching(
                 child_element,
                 find_start_end_fn=find_start_end_fn,
                 create_element_fn=create_element_fn,
-                as_next_sibling=True
+                as_next_sibling=not len(child_element)
             ):
                 return True
     return False
-- 
2.43.0


From 97cc38ab46eff4c824838f2b14e8bc38c7019585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:08 +0000
Subject: [PATCH 34/47] fix: only use a doi url prefix directly before the doi

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 727c13f..83ae15d 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -337,7 +337,7 @@ def find_doi_start_end(text: str) -> Optional[Tuple[int, int]]:
 
 
 def find_doi_url_prefix_valid_start_end(text: str) -> Optional[Tuple[int, int]]:
-    return find_re_pattern_start_end(text, DOI_URL_PREFIX_PATTERN)
+    return find_re_pattern_start_end(text, DOI_URL_PREFIX_PATTERN + '$')
 
 
 def find_pii_valid_start_end(text: str) -> Optional[Tuple[int, int]]:
-- 
2.43.0


From 4378eb422d792978ad97fe1d5ea51187f9fdfc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:08 +0000
Subject: [PATCH 35/47] fix: do not take numbers after a comma as pii

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 83ae15d..b33e9c3 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -80,7 +80,7 @@ RIGHT_BY_LEFT_QUOTE_CHAR = {
 DOI_PATTERN = r'\b(10\.\d{4,}(?:\.\d{1,})*/.+)'
 
 # https://en.wikipedia.org/wiki/Publisher_Item_Identifier
-PII_VALID_PATTERN = r'\b([S,B]\W*(?:[0-9xX]\W*){15,}[0-9xX])'
+PII_VALID_PATTERN = r'\b([SB]\W*(?:[0-9xX]\W*){15,}[0-9xX])'
 PII_OTHER_PATTERN = r'\b(?:doi\:)?(\S{5,})\s*\[pii\]'
 
 PMID_FIX_PATTERN = r'(?:PMID\s*\:\s*)?\b(\d{1,10})\b'
-- 
2.43.0


From 9921d2a959791ad1deba66b31b392d66a4327a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:08 +0000
Subject: [PATCH 36/47] fix: keep the order of the text of links with child
 elements

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index b33e9c3..f1cecf4 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -544,6 +544,9 @@ def fix_ext_link(reference_element: etree.Element):
         text = child_element.text
         if not text:
             continue
+        if len(child_element):
+            # the text of elements with children is not complete
+            continue
         href = child_element.attrib.get(XLINK_HREF)
         hrefs = split_url(text)
         # very special case where hrefs are joined by 'w'
-- 
2.43.0


From e6a982fe278cc0e7377029f48ebf884796daec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:08 +0000
Subject: [PATCH 37/47] fix: remove white space before the semicolon after a
 doi

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index f1cecf4..9a3f798 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -326,7 +326,7 @@ def find_doi_start_end(text: str) -> Optional[Tuple[int, int]]:
             doi = doi[0:-5].rstrip()
         doi = strip_pii_from_doi(doi)
         doi = remove_duplicate_doi(doi)
-        doi = doi.rstrip(';')
+        doi = doi.rstrip(';').rstrip()
         char_counts = Counter(doi)
         if char_counts[']'] > char_counts['[']:
             doi = doi.rstrip(']').rstrip()
-- 
2.43.0


From c619f39705caf05869fc544e4061301d1a1f4648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:08 +0000
Subject: [PATCH 38/47] fix: read compressed local files

---
 sciencebeam_trainer_grobid_tools/utils/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/io.py b/sciencebeam_trainer_grobid_tools/utils/io.py
index b6756ad..51a8fcb 100644
--- a/sciencebeam_trainer_grobid_tools/utils/io.py
+++ b/sciencebeam_trainer_grobid_tools/utils/io.py
@@ -23,12 +23,16 @@ def auto_download_input_file(
     else:
         open_fn = file_url_or_open_fn
 
-    if file_url and '://' not in file_url:
+    is_compressed = file_url and file_url.endswith('.gz')
+    if file_url and '://' not in file_url and not is_compressed:
         yield file_url
         return
     with TemporaryDirectory(suffix='-input') as temp_dir:
         if file_url:
             temp_file = os.path.join(temp_dir, os.path.basename(file_url))
+            if is_compressed:
+                # the file is decompressed while reading it
+                temp_file = temp_file[:-len('.gz')]
             open_fn = partial(FileSystems.open, file_url)
         else:
             temp_file = os.path.join(temp_dir, 'temp.file')
-- 
2.43.0


From 417f664679e75f3be72def12e886b7a57caa8e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:47 +0000
Subject: [PATCH 39/47] fix: go on matching after a line of symbols only

---
 .../core/annotation/matching_annotator.py                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py b/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
index 539f3cb..e411d3f 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
@@ -388,7 +388,7 @@ class TargetAnnotationMatchFinder(object):
                 continue
             current_choice_str = text(choice)
             if not current_choice_str:
-                return
+                continue
             if next_choice:
                 next_choice_str = text(next_choice)
                 choice_str = current_choice_str + ' ' + next_choice_str
-- 
2.43.0


From c7b94acb33d64778e6a15ae60560c448de18374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:47 +0000
Subject: [PATCH 40/47] fix: do not match the next line by the separator in
 front of it

---
 .../core/annotation/matching_annotator.py                     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py b/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
index e411d3f..f31f3f2 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
@@ -412,6 +412,8 @@ class TargetAnnotationMatchFinder(object):
             if not tag_to_choice_match:
                 fm_combined = fuzzy_match(s1, choice_str)
                 fm, fm_next = fm_combined.b_split_at(len(current_choice_str))
+                # exclude the separator between the choices
+                _, fm_next = fm_next.b_split_at(1)
                 get_logger().debug(
                     'regular match: s1=%s, choice=%s, fm=%s (combined: %s)',
                     s1, choice, fm, fm_combined
@@ -456,6 +458,8 @@ class TargetAnnotationMatchFinder(object):
                 s1_sub = s1[start_index:]
                 fm_combined = fuzzy_match(choice_str, s1_sub)
                 fm, fm_next = fm_combined.a_split_at(len(current_choice_str))
+                # exclude the separator between the choices
+                _, fm_next = fm_next.a_split_at(1)
                 get_logger().debug(
                     'short match: s1_sub=%s, choice=%s, fm=%s (combined: %s)',
                     s1_sub, choice, fm, fm_combined
-- 
2.43.0


From eef7268ae72a68bd7232df820f5c34c0baa89f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:47 +0000
Subject: [PATCH 41/47] fix: count the next line as matched line too

---
 .../core/annotation/matching_annotator.py                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py b/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
index f31f3f2..2cb0625 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
@@ -441,7 +441,7 @@ class TargetAnnotationMatchFinder(object):
                             fm_next.a_index_range(),
                             fm_next.b_index_range()
                         )
-                        matched_choices.add(choice)
+                        matched_choices.add(next_choice)
                         get_logger().debug('found next match: %s', sm)
                         yield sm
                         index1_end = skip_whitespaces(s1, fm_next.a_end_index())
-- 
2.43.0


From 824c2d9401bb39dd54a325c974dfd786a4cdc284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:27 +0000
Subject: [PATCH 42/47] fix: do not add a relative base path to the files twice

---
 sciencebeam_trainer_grobid_tools/download_source_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/download_source_files.py b/sciencebeam_trainer_grobid_tools/download_source_files.py
index 1b61985..87f54f4 100644
--- a/sciencebeam_trainer_grobid_tools/download_source_files.py
+++ b/sciencebeam_trainer_grobid_tools/download_source_files.py
@@ -115,7 +115,8 @@ class FileList(object):
         self.base_path = base_path
         if base_path:
             self.relative_file_list = to_relative_file_list(base_path, file_list)
-            self.absolute_file_list = to_absolute_file_list(base_path, file_list)
+            # using the relative file list because the base path may be relative
+            self.absolute_file_list = to_absolute_file_list(base_path, self.relative_file_list)
         else:
             self.relative_file_list = file_list
             self.absolute_file_list = file_list
-- 
2.43.0


From 5b41fe8372fc7e8f4bd80b30871fad068545380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:27 +0000
Subject: [PATCH 43/47] fix: default to the directory of the file list as base
 path

---
 sciencebeam_trainer_grobid_tools/download_source_files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/download_source_files.py b/sciencebeam_trainer_grobid_tools/download_source_files.py
index 87f54f4..afc442a 100644
--- a/sciencebeam_trainer_grobid_tools/download_source_files.py
+++ b/sciencebeam_trainer_grobid_tools/download_source_files.py
@@ -155,7 +155,10 @@ class FileList(object):
 
 def load_file_list_from_config(file_list_config, limit):
     return FileList(
-        base_path=file_list_config['base_path'],
+        base_path=(
+            file_list_config['base_path']
+            or os.path.dirname(file_list_config['file_list'])
+        ),
         file_list=load_file_list(
             file_list_config['file_list'],
             column=file_list_config['file_column'],
-- 
2.43.0


From 332bd547ce55199a31cb92065e8d2b934d3467a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:27 +0000
Subject: [PATCH 44/47] fix: copy files outside the base path to the output
 path

---
 sciencebeam_trainer_grobid_tools/download_source_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/download_source_files.py b/sciencebeam_trainer_grobid_tools/download_source_files.py
index afc442a..e715a76 100644
--- a/sciencebeam_trainer_grobid_tools/download_source_files.py
+++ b/sciencebeam_trainer_grobid_tools/download_source_files.py
@@ -168,7 +168,8 @@ def load_file_list_from_config(file_list_config, limit):
 
 
 def get_filename_pattern_props(relative_source_filename):
-    relative_dirname = os.path.dirname(relative_source_filename)
+    # files outside the base path should also be copied to within the output path
+    relative_dirname = os.path.dirname(relative_source_filename).lstrip('/')
     filename = os.path.basename(relative_source_filename)
     name, ext = os.path.splitext(filename)
     if ext.lower() == '.gz':
-- 
2.43.0


From d69e930cbb9a4f362220de4863c036cb02448ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:09 +0000
Subject: [PATCH 45/47] fix: keep the beginning of annotations when removing
 untagged tokens

---
 .../structured_document/grobid_training_tei.py                 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 1445dc6..5b1f444 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -720,7 +720,8 @@ class GrobidTrainingTeiStructuredDocument(AbstractStructuredDocument):
         for line in self._lines:
             for token in line.tokens:
                 if isinstance(token, TeiSpace):
-                    if output_enabled:
+                    # a tagged space may be the beginning of an annotation
+                    if output_enabled or token.tag:
                         current_result_line_tokens.append(token)
                     continue
                 output_enabled = (token.tag or '') != ''
-- 
2.43.0


From 77cb6d7a8864264f84ac5ec965a664247c7084ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:34 +0000
Subject: [PATCH 46/47] fix: read training documents with comments

---
 .../structured_document/grobid_training_tei.py               | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 5b1f444..2ef8898 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -301,6 +301,11 @@ def _iter_extract_lines_from_element(
     LOGGER.debug('current_path: %s', current_path)
 
     for child_element in parent_element:
+        if not isinstance(child_element.tag, str):
+            # comment or processing instruction
+            line_buffer.append_text(child_element.tail)
+            continue
+
         if is_line_break_element(child_element):
             yield line_buffer.flush()
             line_buffer.append_text(child_element.tail)
-- 
2.43.0


From 1ffe736219e4890411aceecf0d56820c47149a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:32 +0000
Subject: [PATCH 47/47] fix: remove quotes around article titles with markup
 that are followed by a comma

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 9a3f798..6c235be 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -613,6 +613,7 @@ def fix_article_title(reference_element: etree.Element):
         find_start_end_fn=find_article_title_start_end
     )
     for element in reference_element.xpath(JatsXpaths.ARTICLE_TITLE):
+        remove_training_comma_from_element(element)
         remove_surrounding_quotes_from_element(element)
         remove_training_comma_from_element(element)
 
-- 
2.43.0

