From b79a1fa8d793c06658db2f4bb8c90a09cd41e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:21 +0000
Subject: [PATCH 01/24] fix: do not repeat tokens of previous lines when
 removing untagged tokens

---
 .../structured_document/grobid_training_tei.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 42754dc..1c480d3 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -706,9 +706,9 @@ class GrobidTrainingTeiStructuredDocument(AbstractStructuredDocument):
 
     def remove_all_untagged(self):
         updated_lines = []
-        current_result_line_tokens = []
         output_enabled = True
         for line in self._lines:
+            current_result_line_tokens = []
             for token in line.tokens:
                 if isinstance(token, TeiSpace):
                     if output_enabled:
-- 
2.43.0


From 305ff7f66759737c6f3e5da997162bf5e3a209c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:30 +0000
Subject: [PATCH 02/24] fix: keep tail and child elements when replacing an
 element with its text

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index f3b4917..e3d7b56 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -222,6 +222,10 @@ def add_text_to_tail_prefix(current: etree.Element, text: str):
 
 def replace_element_with_text(current: etree.Element, text: str):
     add_text_to_previous(current, text)
+    for child in list(current):
+        current.addprevious(child)
+    # Note: removing the element will also remove its tail
+    add_text_to_previous(current, current.tail or '')
     current.getparent().remove(current)
 
 
-- 
2.43.0


From a101362740cf6a58fb6e7b8d6ca78c8e4f481719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:30 +0000
Subject: [PATCH 03/24] fix: keep text order when annotated element has child
 elements

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index e3d7b56..4776e48 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -417,6 +417,9 @@ def change_annotation_to_matching_text(
         replace_element_with_text(element, text)
         return
     start, end = start_end
+    if len(element):
+        # the remaining text is followed by child elements, keep it in front of those
+        end = len(text)
     matching_text = text[start:end]
     LOGGER.debug('matching: %s (%r, %s)', start_end, matching_text, find_start_end_fn.__name__)
     element.text = matching_text
-- 
2.43.0


From 87049d9fa2dd2ebe71d0202aca8ad9e0f7bd263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:30 +0000
Subject: [PATCH 04/24] fix: keep text order when adding a sibling element
 after an element with tail

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 4776e48..780a40b 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -230,6 +230,10 @@ def replace_element_with_text(current: etree.Element, text: str):
 
 
 def add_next_sibling_element(element: etree.Element, new_element: etree.Element):
+    # Note: the tail of element needs to move behind the new element (and its tail)
+    if element.tail:
+        new_element.tail = (new_element.tail or '') + element.tail
+        element.tail = None
     element.getparent().insert(
         element.getparent().index(element) + 1,
         new_element
@@ -455,7 +459,7 @@ def add_annotation_to_element_text_if_matching(
         create_element_fn(matching_text),
         tail=text[end:]
     )
-    if as_next_sibling:
+    if as_next_sibling and not len(element):
         add_next_sibling_element(element, new_element)
     else:
         element.insert(0, new_element)
-- 
2.43.0


From 239aacc94db03571aaa378f31e6452849282c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:30 +0000
Subject: [PATCH 05/24] fix: handle doi elements without text or preceding text
 and keep their child elements

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 780a40b..a42afd0 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -632,6 +632,8 @@ def fix_doi(reference_element: etree.Element):
 def replace_doi_annotation_with_ext_link_if_url(reference_element: etree.Element):
     for doi_element in reference_element.xpath(JatsXpaths.DOI):
         previous_text = get_previous_text(doi_element)
+        if not previous_text or not doi_element.text:
+            continue
         start_end = find_doi_url_prefix_valid_start_end(previous_text)
         if not start_end:
             LOGGER.debug('not matching doi url prefix: %r', previous_text)
@@ -641,13 +643,12 @@ def replace_doi_annotation_with_ext_link_if_url(reference_element: etree.Element
         doi_url = matching_doi_url_prefix + doi_element.text
         LOGGER.debug('matching doi url prefix: %s (%r)', start_end, matching_doi_url_prefix)
         set_previous_text(doi_element, previous_text[:start])
-        doi_element.getparent().replace(
-            doi_element,
-            get_jats_ext_link_element(
-                doi_url,
-                tail=doi_element.tail
-            )
+        ext_link_element = get_jats_ext_link_element(
+            doi_url,
+            tail=doi_element.tail
         )
+        ext_link_element.extend(list(doi_element))
+        doi_element.getparent().replace(doi_element, ext_link_element)
 
 
 def fix_pii(reference_element: etree.Element):
-- 
2.43.0


From 4596c5f596a055e19ba3fad90f985128b7179874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:30 +0000
Subject: [PATCH 06/24] fix: do not split the text of ext-link elements with
 child elements

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index a42afd0..8d33832 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -550,7 +550,7 @@ def split_url(url: str) -> List[str]:
 def fix_ext_link(reference_element: etree.Element):
     for child_element in list(reference_element.xpath(JatsXpaths.EXT_LINK)):
         text = child_element.text
-        if not text:
+        if not text or len(child_element):
             continue
         href = child_element.attrib.get(XLINK_HREF)
         hrefs = split_url(text)
-- 
2.43.0


From b4c946f1dc70d48def2de09ca634a665cdde8fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:42 +0000
Subject: [PATCH 07/24] fix: close the element of an end tag after closing its
 unclosed child elements

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 9c76fed..f684942 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -207,6 +207,7 @@ class FixingHtmlParser(HTMLParser):
                 tag, self._current_tag
             )
             self._close_current_element()
+        self._close_current_element()
 
     def handle_data(self, data):
         LOGGER.debug('endtag: data=%r', data)
-- 
2.43.0


From 29147d210bfbc6c1b9b8afff9b484aa119ea2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:49 +0000
Subject: [PATCH 08/24] fix: handle attributes without value when fixing xml

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index f684942..523f7f2 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -173,7 +173,7 @@ class FixingHtmlParser(HTMLParser):
         LOGGER.debug('starttag: tag=%r, attrs=%s', tag, attrs)
         self.buffer.write(f'<{tag}')
         for key, value in attrs:
-            quoted_value = xml.sax.saxutils.quoteattr(value)
+            quoted_value = xml.sax.saxutils.quoteattr(value or '')
             self.buffer.write(f' {key}={quoted_value}')
         self.buffer.write('>')
         self.tag_stack.append(tag)
-- 
2.43.0


From 85e6016a023ba53ec1d9f1f3c9210fdf3cb1f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:57 +0000
Subject: [PATCH 09/24] fix: exclude padding from joined text index ranges

---
 sciencebeam_trainer_grobid_tools/annotation/matching_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/matching_utils.py b/sciencebeam_trainer_grobid_tools/annotation/matching_utils.py
index eb80ea8..924f67b 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/matching_utils.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/matching_utils.py
@@ -133,7 +133,7 @@ def join_with_index_ranges(
     item_sep_pad_len = len(sep) + 2 * len(pad)
     index_ranges = []
     for index, item_str in enumerate(item_str_list):
-        item_end = item_start + len(item_str)
+        item_end = item_start + len(item_str) - 2 * len(pad)
         index_ranges.append((item_start, item_end))
         if whitespace_list:
             item_start = item_end + len(whitespace_list[index]) + 2 * len(pad)
-- 
2.43.0


From c5e6983524a603476c068dd2dcddbd9fe82c4509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:04 +0000
Subject: [PATCH 10/24] fix: use haystack coordinates for all chunks of a
 chunked fuzzy search

---
 sciencebeam_trainer_grobid_tools/utils/fuzzy.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
index 4596f99..df3fa27 100644
--- a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
+++ b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
@@ -392,6 +392,7 @@ def get_str_left_strided_matching_blocks_chunks(
         ):
             start_index += stride
             continue
+        matching_blocks = get_offset_matching_blocks(matching_blocks, a_offset=start_index)
         if (
             get_matching_blocks_b_gap_ratio(
                 haystack, needle, matching_blocks, isjunk=isjunk
@@ -456,12 +457,7 @@ def get_str_left_strided_matching_blocks_chunks(
                 )
                 for remaining_matching_blocks in remaining_matching_blocks_chunks
             ]
-        if not start_index:
-            return [matching_blocks]
-        return [[
-            (ai + start_index, bi, size)
-            for ai, bi, size in matching_blocks
-        ]]
+        return [matching_blocks]
     return []
 
 
-- 
2.43.0


From be2ebb68cf0b2b84c6bdc25e19f4ea65a6b4a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:13 +0000
Subject: [PATCH 11/24] fix: restore original tags after sub tag only
 annotation

---
 sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
index e214e7b..f103867 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
@@ -43,7 +43,6 @@ class SubTagOnlyAnnotator(SimpleMatchingAnnotator):
         super().annotate(structured_document)
         # restore original tags (but now with auto-annotated sub-tags)
         for token, preserved_tag in token_preserved_tags:
-            preserved_tag = structured_document.get_tag_or_preserved_tag(token)
             LOGGER.debug('restoring preserved tag: %r -> %r', token, preserved_tag)
             structured_document.set_tag_only(token, preserved_tag)
         return structured_document
-- 
2.43.0


From c54aeec384ebff913424495dbb68a5f6d4741a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:22 +0000
Subject: [PATCH 12/24] fix: offset both sides of a matching block when
 splitting within the block

---
 .../core/annotation/fuzzy_match.py                   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/fuzzy_match.py b/sciencebeam_trainer_grobid_tools/core/annotation/fuzzy_match.py
index 65360a0..8963b1e 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/fuzzy_match.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/fuzzy_match.py
@@ -226,7 +226,11 @@ class FuzzyMatchResult(object):
                 if ai < index
             ]),
             FuzzyMatchResult(a_post_split, self.b, [
-                (max(0, ai - index), bi, size if ai >= index else size + ai - index)
+                (
+                    max(0, ai - index),
+                    bi + max(0, index - ai),
+                    size if ai >= index else size + ai - index
+                )
                 for ai, bi, size in self.non_empty_matching_blocks
                 if ai + size > index
             ])
@@ -249,7 +253,11 @@ class FuzzyMatchResult(object):
                 if bi < index
             ]),
             FuzzyMatchResult(self.a, b_post_split, [
-                (ai, max(0, bi - index), size if bi >= index else size + bi - index)
+                (
+                    ai + max(0, index - bi),
+                    max(0, bi - index),
+                    size if bi >= index else size + bi - index
+                )
                 for ai, bi, size in self.non_empty_matching_blocks
                 if bi + size > index
             ])
-- 
2.43.0


From 815c800821ccf7b3edfa64458ac683e53ce792c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:09 +0000
Subject: [PATCH 13/24] fix: pass line number ratio as a number and apply the
 maximum line number gap

---
 sciencebeam_trainer_grobid_tools/auto_annotate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 4666bd2..5460d4d 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -237,7 +237,7 @@ def add_annotation_pipeline_arguments(
         ])
     )
     line_no_group.add_argument(
-        '--min-line-number-ratio', type=str,
+        '--min-line-number-ratio', type=float,
         default=DEFAULT_LINE_NUMBER_RATIO_THRESHOLD,
         help=' '.join([
             'minimum ratio of line number candidates vs non-line number tokens',
@@ -596,6 +596,7 @@ class AbstractAnnotatePipelineFactory(ABC):
             use_line_number_annotator=opt.use_line_number_annotator,
             line_number_annotator_config=TextLineNumberAnnotatorConfig(
                 min_line_number=opt.min_line_numbers_per_page,
+                max_line_number_gap=opt.max_line_number_gap,
                 line_number_ratio_threshold=opt.min_line_number_ratio,
             )
         )
-- 
2.43.0


From ca799389f84879687f2130106de6a6cbe5e5afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:39 +0000
Subject: [PATCH 14/24] fix: do not close the temporary source file of other
 files processed concurrently

---
 sciencebeam_trainer_grobid_tools/auto_annotate_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 5460d4d..60d675d 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -1,4 +1,5 @@
 import argparse
+import copy
 import logging
 import concurrent.futures
 import re
@@ -647,8 +648,11 @@ class AbstractAnnotatePipelineFactory(ABC):
         return source_url
 
     def auto_annotate(self, source_url: str):
-        with self.file_exit_stack:
-            self._auto_annotate(source_url)
+        # files may be processed concurrently, do not share the exit stack between them
+        file_pipeline_factory = copy.copy(self)
+        file_pipeline_factory.file_exit_stack = ExitStack()
+        with file_pipeline_factory.file_exit_stack:
+            file_pipeline_factory._auto_annotate(source_url)
 
     def _auto_annotate(self, source_url: str):
         try:
-- 
2.43.0


From bec368a3d2dbeec166daa6f94962d39a1421cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:30 +0000
Subject: [PATCH 15/24] fix: do not duplicate the text of additional container
 elements when writing the document

---
 .../structured_document/grobid_training_tei.py               | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 1c480d3..afcbe78 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -544,6 +544,11 @@ def _updated_tei_with_lines(
         raise RuntimeError('container node path not found: %s (namespaces=%s) (has %s)' % (
             container_node_path, namespaces, list(updated_root)
         ))
+    # all of the lines will be written to the first container node
+    for other_container_node in updated_root.findall(
+        container_node_path, namespaces=namespaces
+    )[1:]:
+        other_container_node.getparent().remove(other_container_node)
     container_node.clear()
     _lines_to_tei(container_node, lines, tag_to_tei_path_mapping)
     return updated_root
-- 
2.43.0


From 15f219bef6f7efb56346a71959bd976e5a72b06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:32 +0000
Subject: [PATCH 16/24] fix: also ignore the begin prefix of sub tags outside
 the main path

---
 .../structured_document/grobid_training_tei.py                   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index afcbe78..c753432 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -478,6 +478,7 @@ def _lines_to_tei(
                     'ignoring sub tag outside main path: %s (%s)',
                     sub_tag, sub_required_path
                 )
+                sub_prefix = None
                 sub_tag = None
                 sub_full_tag = None
                 sub_required_path = []
-- 
2.43.0


From 0e15ee2bfea42423c58253faf47e5d48d69b7a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:38 +0000
Subject: [PATCH 17/24] fix: do not include positions before the start when
 inverting index ranges

---
 sciencebeam_trainer_grobid_tools/core/annotation/fuzzy_match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/fuzzy_match.py b/sciencebeam_trainer_grobid_tools/core/annotation/fuzzy_match.py
index 8963b1e..aef7c26 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/fuzzy_match.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/fuzzy_match.py
@@ -70,7 +70,7 @@ def invert_index_ranges(range_list, start, end):
             return
         if i < r_start:
             yield i, min(end, r_start)
-        i = r_end
+        i = max(i, r_end)
     if i < end:
         yield i, end
 
-- 
2.43.0


From de1b9e148276ab7355a885bd18d2ad51137da708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:38 +0000
Subject: [PATCH 18/24] fix: do not add a relative base path twice to the files
 to download

---
 sciencebeam_trainer_grobid_tools/download_source_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/download_source_files.py b/sciencebeam_trainer_grobid_tools/download_source_files.py
index 1b61985..1639d8a 100644
--- a/sciencebeam_trainer_grobid_tools/download_source_files.py
+++ b/sciencebeam_trainer_grobid_tools/download_source_files.py
@@ -115,7 +115,8 @@ class FileList(object):
         self.base_path = base_path
         if base_path:
             self.relative_file_list = to_relative_file_list(base_path, file_list)
-            self.absolute_file_list = to_absolute_file_list(base_path, file_list)
+            # Note: a relative base path must not be added to paths already including it
+            self.absolute_file_list = to_absolute_file_list(base_path, self.relative_file_list)
         else:
             self.relative_file_list = file_list
             self.absolute_file_list = file_list
-- 
2.43.0


From 4ddf3c22f8d9bf9aa33cbe2313d47896e44a9248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:53 +0000
Subject: [PATCH 19/24] fix: recognise preserved page numbers with a tag prefix
 in the segmentation

---
 .../annotation/segmentation_annotator.py                  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
index 940d378..b1b0d56 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
@@ -138,6 +138,10 @@ def _get_line_token_tags_or_preserved_tags(
     ]
 
 
+def _get_line_token_tag_or_preserved_tag_values(*args, **kwargs) -> List[Optional[str]]:
+    return _to_tag_values(_get_line_token_tags_or_preserved_tags(*args, **kwargs))
+
+
 def _clear_line_token_tags(
         structured_document: GrobidTrainingTeiStructuredDocument, line):
     for token in structured_document.get_all_tokens_of_line(line):
@@ -233,7 +237,7 @@ def apply_preserved_page_numbers(
     segmentation_lines: SegmentationLineList
 ):
     for line in segmentation_lines.iter_untagged():
-        tags = _get_line_token_tags_or_preserved_tags(
+        tags = _get_line_token_tag_or_preserved_tag_values(
             line.structured_document, line.line
         )
         if SegmentationTagNames.PAGE in tags:
@@ -381,7 +385,7 @@ def merge_lines(
         if line.segmentation_tag:
             condidate_lines = []
             continue
-        tags = _get_line_token_tags_or_preserved_tags(
+        tags = _get_line_token_tag_or_preserved_tag_values(
             line.structured_document, line.line
         )
         if preserve_tags and SegmentationTagNames.PAGE in tags:
-- 
2.43.0


From 1769e08aa9e14f443dcb90efc6f4d2fb265c68f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:46 +0000
Subject: [PATCH 20/24] fix: do not fail on a document without lines if no
 minimum line number count is required

---
 .../annotation/line_number_annotator.py                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/line_number_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/line_number_annotator.py
index b920309..6048dcf 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/line_number_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/line_number_annotator.py
@@ -103,7 +103,7 @@ def iter_find_line_number_tokens_in_lines(
         min_line_number=min_line_number,
         max_line_number_gap=max_line_number_gap
     )
-    if len(line_number_candidates) < min_line_number:
+    if not line_number_candidates or len(line_number_candidates) < min_line_number:
         LOGGER.debug('not enough line number candidates: %d', len(line_number_candidates))
         return []
     line_number_ratio = len(line_number_candidates) / len(first_tokens_of_lines)
-- 
2.43.0


From eeb9b5ce908551e490842fd188116dadcc51ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:58 +0000
Subject: [PATCH 21/24] fix: allow comments and processing instructions in TEI
 training documents

---
 .../structured_document/grobid_training_tei.py                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index c753432..4ea4a74 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -297,6 +297,10 @@ def _iter_extract_lines_from_element(
     LOGGER.debug('current_path: %s', current_path)
 
     for child_element in parent_element:
+        if not isinstance(child_element.tag, str):
+            # comments and processing instructions don't have any text content
+            line_buffer.append_text(child_element.tail)
+            continue
         if child_element.tag == TeiTagNames.LB:
             yield line_buffer.flush()
 
-- 
2.43.0


From 745f03ce1a6a2905e7287e32967ae33effb855d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:58 +0000
Subject: [PATCH 22/24] fix: separate words of adjacent elements also if the
 first spans multiple lines

---
 .../annotation/target_annotation.py                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
index 35ff79e..ab42a2d 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
@@ -49,7 +49,7 @@ def contains_raw_text(element: etree.Element) -> bool:
 
 
 def is_ends_with_word(text: str) -> bool:
-    return re.match(r'.*\w$', text) is not None
+    return re.search(r'\w$', text) is not None
 
 
 def is_starts_with_word(text: str) -> bool:
-- 
2.43.0


From 2c4595735ce36435eaf453059cabaaf9a10247d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:58 +0000
Subject: [PATCH 23/24] fix: do not include comments in the text content when
 excluding children

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 523f7f2..639a09c 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -32,7 +32,8 @@ def iter_text_content_and_exclude(
     if node.text is not None:
         yield node.text
     for child in node.iterchildren():
-        if child not in exclude:
+        # comments and processing instructions don't have any text content
+        if isinstance(child.tag, str) and child not in exclude:
             yield from iter_text_content_and_exclude(child, exclude=exclude)
         if child.tail:
             yield child.tail
-- 
2.43.0


From 20f92f38e0c9eb52619ba5f8d069f9b609ffdde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:19 +0000
Subject: [PATCH 24/24] fix: keep the options of selected sub fields when
 filtering the xml mapping

---
 sciencebeam_trainer_grobid_tools/auto_annotate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 60d675d..cceb84e 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -350,7 +350,8 @@ def is_key_selected_sub_fields_or_no_sub_field(
     sub_field = get_sub_field_for_key_or_none(key)
     if not sub_field:
         return True
-    return sub_field in sub_fields
+    # the key may be an option of the sub field, e.g. <field>.sub.<sub field>.extract-regex
+    return get_mapping_key_field_name(sub_field) in sub_fields
 
 
 def get_xml_mapping_with_filtered_sub_fields(
-- 
2.43.0

